"""Runs the launcher of /repo with every outside effect replaced by a stand-in that records it. Reads a list of cases from stdin as JSON, writes the records as JSON."""
import sys, os, json, io, contextlib, runpy, subprocess, pathlib
sys.dont_write_bytecode = True

real_exists, real_chmod = pathlib.Path.exists, pathlib.Path.chmod
plat = sys.platform


def case(c):
    log = []

    def tool(cmd, *a, **k):
        cmd = [str(x) for x in cmd]
        log.append(cmd)
        if cmd[0] == 'toolbox':
            t = c['toolbox']
            if t is None:
                raise FileNotFoundError(2, 'No such file or directory', 'toolbox')
            if t == 'fails':
                raise subprocess.CalledProcessError(1, cmd)
            return t if k.get('encoding') or k.get('text') or k.get('universal_newlines') else t.encode()
        return '' if k.get('encoding') else b''

    class popen:
        def __init__(self, cmd, *a, **k):
            self.args, self.pid, self.stdin, self.stderr, self.stdout = cmd, 0, None, None, None
            text = k.get('encoding') or k.get('text') or k.get('universal_newlines')
            self.returncode = 0
            try:
                self.out = tool(cmd, encoding=text)
            except subprocess.CalledProcessError:
                self.returncode, self.out = 1, '' if text else b''

        def communicate(self, *a, **k):
            return self.out, type(self.out)()

        def wait(self, *a, **k):
            return self.returncode
        poll = wait

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def system(cmd):
        log.append([cmd])
        return 0
    os.chdir(c['cwd'])
    there = set(c.get('pretend', ()))
    pathlib.Path.exists = lambda p, **k: True if str(p) in there else real_exists(p, **k)
    pathlib.Path.chmod = lambda p, mode, **k: log.append(['chmod', str(p), oct(mode)])
    keep = subprocess.check_output, subprocess.Popen, sys.argv, os.system
    subprocess.check_output, subprocess.Popen, sys.argv, sys.platform = tool, popen, [c['script']] + c['args'], c['platform']
    os.system = system
    r = {'exit': 0, 'error': None}
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(c['script'], run_name='__main__')
    except SystemExit as e:
        r['exit'] = e.code
    except BaseException as e:
        r['error'] = '%s: %s' % (type(e).__name__, e)
    finally:
        subprocess.check_output, subprocess.Popen, sys.argv, os.system = keep
        sys.platform = plat
        pathlib.Path.exists, pathlib.Path.chmod = real_exists, real_chmod
    r.update(log=log, out=out.getvalue(), err=err.getvalue())
    return r


print(json.dumps([case(c) for c in json.load(sys.stdin)]))
