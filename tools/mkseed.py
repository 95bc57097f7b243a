"""Helper to lay out a planted bug: mkseed(id, property, [(file, old, new)...], needs, breaks, demo_source, lang)"""
import os, subprocess, json, shutil, tempfile
R = "/repo"
DEMO = {
"c": '''#!/bin/bash
# exit 0 if the property holds in this case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w -I/repo/include -I/repo/src "$d/demo.c" -o "$t/demo" /repo/_build/src/.libs/libpomp.a -lpthread -lrt || exit 2
cd "$t" && timeout 60 ./demo
''',
"cpp": '''#!/bin/bash
# exit 0 if the property holds in this case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -g -O1 -w -I/repo/include "$d/demo.cpp" -o "$t/demo" /repo/_build/src/.libs/libpomp.a -lpthread -lrt || exit 2
cd "$t" && timeout 60 ./demo
''',
"asan": '''#!/bin/bash
# exit 0 if the property holds in this case (the library is compiled with the address sanitizer in a scratch folder)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -g -O1 -w -fsanitize=address -DHAVE_TIMER_CREATE -DPOMP_API_EXPORTS -I/repo/include -I/repo/src "$d/demo.c" $(ls /repo/src/*.c | grep -v -e _win32 -e kqueue -e _linux -e _posix) -o "$t/demo" -lpthread -lrt || exit 2
cd "$t" && timeout 60 ./demo
''',
"tsan": '''#!/bin/bash
# exit 0 if the property holds in this case (the library is compiled with the thread sanitizer in a scratch folder)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -g -O1 -w -fsanitize=thread -DHAVE_TIMER_CREATE -DPOMP_API_EXPORTS -I/repo/include -I/repo/src "$d/demo.c" $(ls /repo/src/*.c | grep -v -e _win32 -e kqueue -e _linux -e _posix) -o "$t/demo" -lpthread -lrt || exit 2
cd "$t" && TSAN_OPTIONS=halt_on_error=1 timeout 60 ./demo
''',
"py": '''#!/bin/bash
# exit 0 if the property holds in this case
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 60 python3 "$d/demo.py"
''',
}
def mkseed(id, prop, edits, needs, breaks, demo, lang="c"):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed-")
    diff = ""
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open(os.path.join(R, f)).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        by[f] = s.replace(old, new)
    for f, s in by.items():
        for side, txt in (("a", open(os.path.join(R, f)).read()), ("b", s)):
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
        r = subprocess.run(["diff", "-u", os.path.join("a", f), os.path.join("b", f)], cwd=t, capture_output=True, text=True).stdout
        lines = r.split("\n"); lines[0] = "--- a/" + f; lines[1] = "+++ b/" + f
        diff += "\n".join(lines)
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo." + {"asan": "c", "tsan": "c"}.get(lang, lang), "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO[lang]); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
