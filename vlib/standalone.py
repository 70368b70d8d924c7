"""Run the repository's stand-alone server in this (fresh) process with the virtual clock, which is set by lines on stdin.

argv: command line of the server.  For every line "<time>" the clock is set and "ok" is written to the original stdout.
"""
import os
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import signal
    import threading
    from vlib import runner, vclock
    _, out = runner.setup_process()
    out.write('pid %d\n' % os.getpid())
    out.flush()
    inp = sys.stdin

    def control():
        for line in iter(inp.readline, ''):
            vclock.CLOCK.set(float(line))
            out.write('ok\n')
            out.flush()
        os.kill(os.getpid(), signal.SIGKILL)        # the check has gone
    threading.Thread(target=control, daemon=True).start()
    sys.argv = ['mod_dashlivesim.py'] + sys.argv[1:]
    from dashlivesim.mod_wsgi import mod_dashlivesim
    mod_dashlivesim.main()
