# Sourced by demo.sh: a scratch directory and a function that runs the built program in it.
W=$(mktemp -d /tmp/demo.XXXXXX)
mkdir -p "$W/p/dosdevices" "$W/w"
cp /opt/vp/wine/*.reg "$W/p/"; cp /opt/vp/wine/.update-timestamp "$W/p/" 2>/dev/null
ln -s /opt/vp/wine/drive_c "$W/p/dosdevices/c:"; ln -s / "$W/p/dosdevices/z:"
export WINEPREFIX="$W/p" WINEDEBUG=-all WINEARCH=win64 HOME="$W" LC_ALL=C
export WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"
unset DISPLAY ASM UASM JWASM INCLUDE
trap 'wineserver -k 2>/dev/null; wineserver -w 2>/dev/null; find "$W" -depth -delete' EXIT
cd "$W/w"
uasm() { timeout 60 wine "${UEXE:-/repo/_build/win64/uasm.exe}" -q "$@" > out.txt 2>&1 < /dev/null; }
