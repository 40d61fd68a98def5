"""Runs the Windows program under wine in a private prefix."""
import atexit, os, shutil, subprocess
from . import common


class Wine:
    def __init__(self):
        self.root = common.tmproot() + "/wine"
        p = self.root + "/p"
        os.makedirs(p + "/dosdevices")
        for f in os.listdir("/opt/vp/wine"):
            if f.endswith(".reg") or f == ".update-timestamp":
                shutil.copy("/opt/vp/wine/" + f, p)
        os.symlink("/opt/vp/wine/drive_c", p + "/dosdevices/c:")
        os.symlink("/", p + "/dosdevices/z:")
        self.env = {"WINEPREFIX": p, "WINEDEBUG": "-all", "WINEARCH": "win64", "HOME": self.root,
                    "WINEDLLOVERRIDES": "mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"}

    def start(self):
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and self.stop())
        subprocess.run(["wineserver", "-p60"], env={**common.ENV, **self.env}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def stop(self):
        subprocess.run(["wineserver", "-k"], env={**common.ENV, **self.env}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["wineserver", "-w"], env={**common.ENV, **self.env}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
