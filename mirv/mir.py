"""Client of the MIR server: monomorphic MIR, types and instances of the code under /repo."""
import json, subprocess, os

class Server:
    def __init__(self, build):
        build = os.path.abspath(build)
        args = open(os.path.join(build, 'roots.args'), 'rb').read().split(b'\0')[:-1]
        args = [a.decode() for a in args]
        env = dict(os.environ)
        self.p = subprocess.Popen([os.path.join(build, 'mirdump')] + ['rustc'] * 0 + args, cwd=os.path.join(build, 'roots'),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(build, 'server.log'), 'w'),
                                  text=True, env=env)
        self.c = {}
        self.requests = 0

    def ask(self, s):
        if s in self.c:
            return self.c[s]
        self.requests += 1
        self.p.stdin.write(s + '\n'); self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('MIR server ended at request ' + s)
        r = self.c[s] = json.loads(line)
        return r

    def inst(self, i):
        r = self.ask(f'inst {i}')
        r['id'] = i
        return r
    def body(self, i):
        n = self.inst(i)
        return None if n['kind'] in ('virtual', 'intrinsic') or not n['body'] else self.ask(f'body {i}')
    def ty(self, i): return self.ask(f'ty {i}')
    def layout(self, i): return self.ask(f'layout {i}')
    def fns(self, crate='.'): return self.ask(f'fns {crate}')
    def vis(self, crate): return dict(self.ask(f'vis {crate}'))
    def apply(self, name, tys): return self.ask('apply %s %s' % (name, ' '.join(map(str, tys))))
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()
