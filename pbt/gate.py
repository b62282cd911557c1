"""Networks with a consumer that waits: finding out what happens in the meantime."""
import os, time
from .fw import snapshot


def until(ctx, p, cond, progress=lambda: None, quiet=12.0, limit=120.0):
    """Waits for cond(). False when pa2 ended, or when nothing at all went on for `quiet` seconds."""
    began = time.monotonic()
    last, since = None, began
    pause = 0.002
    while True:
        if cond():
            return True
        if p.poll() is not None:
            return bool(cond())
        now = time.monotonic()
        x = progress()
        if x != last:
            last, since = x, now
        elif now - since > quiet:
            asleep, _ = snapshot(p.pid)
            if asleep:
                return bool(cond())
        if now - began > limit:
            return None
        time.sleep(pause)
        pause = min(pause * 1.3, 0.03)


def position(p, path):
    """How far pa2 has read the file, or None when it is not open."""
    d = "/proc/%d/fd" % p.pid
    try:
        for f in os.listdir(d):
            try:
                if os.readlink(os.path.join(d, f)) == path:
                    with open("/proc/%d/fdinfo/%s" % (p.pid, f)) as g:
                        return int(g.read().split()[1])
            except OSError:
                pass
    except OSError:
        pass
    return None


def counter(path):
    """The progress a helper writes (op "pf")."""
    try:
        with open(path, "rb") as f:
            return int.from_bytes(f.read(8), "little")
    except OSError:
        return 0


def size(path):
    try:
        return os.stat(path).st_size
    except OSError:
        return 0
