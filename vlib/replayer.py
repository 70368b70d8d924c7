"""Serve the requests given on stdin in this (fresh) process: [[asset dirs], [[server index, path, now, kwargs], ..]] -> list of digests."""
import json
import os
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import runner
    _, out = runner.setup_process()
    from vlib.digest import digest
    from vlib.wsgi import Server
    dirs, reqs = json.load(sys.stdin)
    servers = [Server(None, c, v) for c, v in dirs]
    res = []
    for s, path, now, kw in reqs:
        res.append(digest(servers[s].get(path, now, **kw)))
    out.write(json.dumps(res))
    out.flush()
