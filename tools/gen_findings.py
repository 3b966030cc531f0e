"""Appends the `fixed:` lines for the fix commits of /repo to KNOWN_FINDINGS.txt (run by hand)."""
import subprocess
PROPS = """41110f6 C01
461e2d4 C01
ba42d17 C04
c1982cf C03
8b44644 C06
7709213 C06
ac2d9f8 C05
2d511f9 C29
3ae8f37 C08
c1efdd1 C15
a04efe0 C11
e7b6211 C14
442efea C13
068b49e C13
cd73d8e C16
570e3db C17
753a0fe C29
7fe7849 C18
8614bae C19
a3d4426 C20
11b0685 C26
6d985fc C29
622177c C05
605910a C04
1daf834 C03
2a325c1 C20
306a86a C24
f1d6c72 C25
bb86aff C28
8853760 C29
5528b6f C30
883c5e1 C30
08ea898 C30"""
m = dict(l.split() for l in PROPS.splitlines())
head = [l for l in open("KNOWN_FINDINGS.txt") if not l.startswith("fixed:")]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "df17a50..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if "line endings" in s:
        continue
    assert s.startswith("fix: ") and h in m, l
    out.append("fixed: property=%s %s %s\n" % (m[h], h, s[5:]))
open("KNOWN_FINDINGS.txt", "w").writelines(head + out)
