"""Runs command scripts in the replay harnesses, many cases per process, several processes."""
import subprocess, concurrent.futures as cf, os

CRASH = 'crash'
ENV = dict(os.environ, LC_ALL='C')


def _run_chunk(exe, cases, timeout):
    """cases: list of lists of command lines.  Returns list of lists of reply lines; a case in
    which the program died or hung has the replies so far followed by 'crash <why>'."""
    out = []
    i = 0
    while i < len(cases):
        rest = cases[i:]
        text = '\n'.join('\n'.join(c) for c in rest) + '\n'
        why = None
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             env=ENV, errors='replace')
        try:
            so, se = p.communicate(text, timeout=timeout)
            if p.returncode != 0:
                why = 'exit status %s %s' % (p.returncode, ' '.join(se.split())[-300:])
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            why = 'no answer within %s s' % timeout
        lines = so.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        k = 0
        done = 0
        for c in rest:
            got = lines[k:k + len(c)]
            if len(got) < len(c):
                if why is None:
                    why = 'output ended early'
                out.append(got + ['%s %s' % (CRASH, why)])
                done += 1
                break
            out.append(got)
            k += len(c)
            done += 1
        i += done
    return out


def run_cases(exe, cases, workers=None, timeout=120, chunk=None):
    workers = workers or os.cpu_count() or 4
    if not cases:
        return []
    if chunk is None:
        chunk = max(1, min(64, (len(cases) + workers - 1) // workers))
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        res = list(ex.map(lambda c: _run_chunk(exe, c, timeout), parts))
    return [r for part in res for r in part]
