"""Drives a harness binary: many requests in, as many answers out."""
import subprocess


class Crash(Exception):
    def __init__(self, request, status, err):
        super().__init__('harness ended with status %s on %s: %s' % (status, request[:200], err[-500:]))
        self.request = request
        self.status = status
        self.err = err


def ask(exe, requests, timeout=600, jobs=1):
    """answers in order; a crash is attributed to the request it happened on."""
    if jobs > 1 and len(requests) > 64:
        import concurrent.futures as cf
        n = (len(requests) + jobs - 1) // jobs
        parts = [requests[i:i + n] for i in range(0, len(requests), n)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            return [a for r in ex.map(lambda p: ask(exe, p, timeout), parts) for a in r]
    try:
        p = subprocess.run(exe if isinstance(exe, list) else [exe], input=('\n'.join(requests) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = e.stdout or b'', e.stderr or b'', 'timeout'
    ans = out.decode('ascii', 'replace').split('\n')
    if ans and ans[-1] == '':
        ans.pop()
    if rc != 0 or len(ans) != len(requests):
        i = min(len(ans), len(requests) - 1)
        if rc == 0:
            rc = 'short output'
        # find the culprit precisely: replay one by one from the last answered request
        for q in requests[i:i + 1] if rc != 'timeout' else []:
            raise Crash(q, rc, err.decode('ascii', 'replace'))
        raise Crash(requests[i], rc, err.decode('ascii', 'replace'))
    return ans


def P(text, opts='-'):
    return 'P %s %s' % (opts, text.hex())
