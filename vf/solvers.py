"""second opinion on queries the in-process solver gave up on"""
import subprocess
import tempfile
import os
import z3


def external(conds, tmo=60):
    s = z3.Solver()
    s.add(*conds)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    procs = []
    try:
        for cmd in (['cvc5', '--tlimit=%d' % (tmo * 1000), path], ['z3-new', '-T:%d' % tmo, path]):
            try:
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            except OSError:
                pass
        import time
        end = time.time() + tmo + 5
        while procs and time.time() < end:
            for p in list(procs):
                if p.poll() is not None:
                    procs.remove(p)
                    out = p.stdout.read().split()
                    if out and out[0] in ('sat', 'unsat'):
                        return out[0]
            time.sleep(0.02)
        return 'unknown'
    finally:
        for p in procs:
            p.kill()
            p.wait()
        os.unlink(path)
