"""A stand-in for everything outside the process: the GAP executable, git, GroupNames.org, standard input.

The library runs the real code up to (and including) the creation of a subprocess; the executables it finds on
PATH are scripts that log their arguments and print a prepared reply.  Web pages are served by a urllib opener.
Every scenario runs in a forked child, so that nothing memoised in one scenario is seen by another.
"""

import io
import os
import pickle
import sys
import tempfile
import traceback
import urllib.error
import urllib.request
import urllib.response

GAP = r"""#!/bin/sh
d="$FAKE_GAP_DIR"
printf '%s\n' "$*" >> "$d/log"
case "$*" in
  *TestPackageAvailability*) cat "$d/package"; exit 0;;
  *GAPInfo.Version*) cat "$d/version"; exit 0;;
esac
i=0
while [ -f "$d/match.$i" ]; do
  m=$(cat "$d/match.$i")
  case "$*" in
    *"$m"*) cat "$d/out.$i"; cat "$d/err.$i" >&2; exit 0;;
  esac
  i=$((i+1))
done
echo "Error, no reply prepared" >&2
exit 1
"""
GIT = r"""#!/bin/sh
printf '%s\n' "$*" >> "$FAKE_GAP_DIR/gitlog"
cat "$FAKE_GAP_DIR/giterr" >&2
"""


class World:
    """Prepared outside world.

    gap:     None (not installed) or a list of (substring of the commands, standard output, standard error)
    pages:   dict url -> text; other urls raise `neterror`
    package: reply of TestPackageAvailability
    """

    def __init__(self, gap=None, pages=None, neterror="unreachable", package="true", version="4.12.2\n", stdin="", giterr="", log=True):
        self.gap, self.pages, self.neterror = gap, dict(pages or {}), neterror
        self.package, self.version, self.stdin, self.giterr = package, version, stdin, giterr

    def write(self, root):
        bindir = os.path.join(root, "bin")
        os.makedirs(bindir, exist_ok=True)
        gap = os.path.join(bindir, "gap")
        if os.path.exists(gap):
            os.remove(gap)
        if self.gap is not None:
            put(gap, GAP)
            os.chmod(gap, 0o755)
        put(os.path.join(bindir, "git"), GIT)
        os.chmod(os.path.join(bindir, "git"), 0o755)
        for name in os.listdir(root):
            if name.split(".")[0] in ("match", "out", "err"):
                os.remove(os.path.join(root, name))
        put(os.path.join(root, "package"), self.package)
        put(os.path.join(root, "version"), self.version)
        put(os.path.join(root, "giterr"), self.giterr)
        for i, (match, out, err) in enumerate(self.gap or ()):
            put(os.path.join(root, f"match.{i}"), match)
            put(os.path.join(root, f"out.{i}"), out)
            put(os.path.join(root, f"err.{i}"), err)

    def enter(self, root):
        """Make this the outside world of the current (child) process."""
        self.write(root)
        os.environ["FAKE_GAP_DIR"] = root
        os.environ["PATH"] = os.path.join(root, "bin") + ":/usr/bin:/bin"
        os.environ["XDG_CACHE_HOME"] = os.path.join(root, "cache")
        sys.stdin = io.StringIO(self.stdin)
        sys.stdout = io.StringIO()
        world = self

        class Handler(urllib.request.BaseHandler):
            handler_order = 1

            def default_open(self, req):
                url = req.full_url
                with open(os.path.join(root, "weblog"), "a") as fh:
                    fh.write(url + "\n")
                text = world.pages.get(url)
                if text is None:
                    if world.neterror == "404":
                        raise urllib.error.HTTPError(url, 404, "Not Found", {}, io.BytesIO(b""))
                    raise urllib.error.URLError("unreachable")
                return urllib.response.addinfourl(io.BytesIO(text.encode()), {}, url, 200)

        opener = urllib.request.OpenerDirector()
        opener.add_handler(Handler())
        urllib.request.install_opener(opener)


def put(path, text):
    with open(path, "w") as fh:
        fh.write(text)


def read(root, name):
    path = os.path.join(root, name)
    if not os.path.exists(path):
        return ""
    with open(path) as fh:
        return fh.read()


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.TemporaryDirectory(prefix="qldpc-mc-", dir=base)


class Failed(Exception):
    """The child raised; args = (type name, message, is_system (not an Exception))."""


def in_fork(func, *args):
    """Run func(*args) in a forked child: ("ok", value), ("raised", type name, message) or ("died", status)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            try:
                out = ("ok", func(*args))
            except BaseException as exc:  # noqa: BLE001
                out = ("raised", type(exc).__name__, str(exc), traceback.format_exc()[-600:])
            with os.fdopen(wfd, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:  # noqa: BLE001
            os._exit(77)
        os._exit(0)
    os.close(wfd)
    try:
        with os.fdopen(rfd, "rb") as fh:
            data = fh.read()
    finally:
        try:
            _, status = os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise
    if not data:
        return ("died", status)
    return pickle.loads(data)
