"""Puts hooks at all places where a copy of bbolt changes or flushes its file: patch.py <copy> <this directory>"""
import os, shutil, sys

copy, here = sys.argv[1:]
edits = [
    ("db.go", "func Open(path string", "func openUnhooked(path string", 1),
    ("db.go", "db.ops.writeAt = db.file.WriteAt", "db.ops.writeAt = db.hookedWriteAt", 1),
    ("db.go", "db.file.Truncate(int64(sz))", "db.hookedTruncate(int64(sz))", 1),
    ("db.go", "db.file.Sync()", "db.hookedSync(db.file.Sync)", 1),
    ("bolt_linux.go", "return syscall.Fdatasync(int(db.file.Fd()))",
     "return db.hookedSync(func() error { return syscall.Fdatasync(int(db.file.Fd())) })", 1),
]
for name, old, new, count in edits:
    p = os.path.join(copy, name)
    s = open(p).read()
    if s.count(old) != count:
        sys.exit(f"{name}: expected {count} times: {old}")
    open(p, "w").write(s.replace(old, new))
shutil.copy(os.path.join(here, "hook.go.txt"), os.path.join(copy, "verif_hook.go"))
