#!/usr/bin/env python3
"""Replaces 'pc 0x...' in a report (stdin) by function and source line.  symbolize.py BINARY"""
import re, subprocess, sys, shutil

def symbolize(binary, text):
    pcs = sorted(set(re.findall(r'pc (0x[0-9a-f]+)', text)))
    if not pcs:
        return text
    tool = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
    names = {}
    try:
        if tool:
            # return addresses: look up the call, one byte back
            inp = '\n'.join(hex(max(0, int(p, 16) - 1)) for p in pcs) + '\n'
            out = subprocess.run([tool, '--obj=' + binary, '--output-style=GNU', '--no-inlines', '--functions=linkage', '--demangle'], input=inp, capture_output=True, text=True, timeout=120).stdout
            lines = out.strip('\n').split('\n')
            if len(lines) >= 2 * len(pcs):
                for i, p in enumerate(pcs):
                    fn, loc = lines[2 * i], lines[2 * i + 1]
                    names[p] = f"{fn[:150]} {'/'.join(loc.split('/')[-2:])}"
    except Exception:
        pass
    return re.sub(r'pc (0x[0-9a-f]+)', lambda m: f"{m.group(1)} {names.get(m.group(1), '')}", text)

if __name__ == '__main__':
    sys.stdout.write(symbolize(sys.argv[1], sys.stdin.read()))
