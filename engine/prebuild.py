"""setup_cmd: builds the engine and every harness (cached by content)."""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props
build.plugin_and_gen()
done = set()
for p in props.PROPS.values():
    for r in p["runs"]:
        k = (r["harness"], tuple(r["groups"]))
        if k not in done:
            done.add(k)
            print(build.harness_exe(k[0], list(k[1])))
