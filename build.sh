# Sourced by check.sh and replay.sh: builds $work/explorer for property $id from
# /repo's working tree. C20 is built against a copy of the package that has
# scheduling points inserted.
cp -r "$here/mc" "$work/mc" || exit 2
cd "$work/mc" || exit 2
go build -o "$work/explorer" . >"$work/build.log" 2>&1 || { cat "$work/build.log"; exit 2; }
if [ "$id" = C20 ]; then
	if "$work/explorer" -instrument "$work/ics" &&
		go mod edit -replace "vimagination.zapto.org/ics=$work/ics" &&
		go build -tags sched -o "$work/sched" . >"$work/sched.log" 2>&1; then
		mv "$work/sched" "$work/explorer" || exit 2
	else
		echo "scheduling points could not be inserted; interleavings are not explored"
		cat "$work/sched.log"
	fi
fi
