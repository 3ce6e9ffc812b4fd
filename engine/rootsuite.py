"""The two ways a connection is served: something arrived (http_read_handle), something can be sent (http_write_handle).
What the handlers do in between is any admissible state of the connection."""
import httpsuite, libc
from httpsuite import *
EAGAIN, EINTR = 11, 4

class RHttp(Http):
    loose = False
    def call(self, E, st, name, args, I):
        if name == '__errno_location':
            o = ('G', 'g:errno'); st.info.setdefault(o, Info('global', 'i32', K(4))); return [(st, Ptr(o))]
        if name in ('rbuf_copyn', 'rbuf_cmpn', 'rbuf_strntol'): return Http.call(self, E, st, name, args, I)
        if I is not None and I[2] is None: return self.dispatch(E, st, name, args, I)
        return DB.call(self, E, st, name, args, I)
    def dispatch(self, E, st, name, args, I):
        R = lambda rule, props, msg: self.report(E, st, rule, props, msg)
        st.g['dispatched'] = min(2, st.g.get('dispatched', 0) + 1); io = st.g.get('io')
        if self.mode == 'read' and st.g['dispatched'] == 1:
            self.ob('requests looked at after something was received')
            if io is not None and io[3] == Z: R('eof', ('C22', 'C02'), 'the connection is served although the client closed it')
            n = st.current(io[3]) if io is not None and io[3] != MONE else Z
            if not any(self.eqp(st, unwrap(st, self.avail(st)).plus(m), st.current(self.avail0).add(n)) for m in (0, 65536, -65536)): R('received', ('C02', 'C03'), 'what is looked at is not what was left plus what was received')
        if self.mode == 'write':
            self.ob('continuations after something was sent')
            if io is not None and (io[3] == MONE or not self.eqp(st, st.current(io[3]), st.current(io[2]))): R('unsent', ('C01', 'C02'), 'the response is continued although what was prepared may not be sent completely')
            if io is None and self.out0 is not None: R('unsent', ('C01', 'C02'), 'the response is continued although what was prepared was not sent')
            for n in ('output_buffer', 'output_buffer_free'):
                if self.cget(E, st, n) != Z: R('output-left', ('C01', 'C06'), 'the response is continued although what was sent before is still pending (%s)' % n)
        out = []
        for r in self.actions:
            s = st.copy(); s.g['ret'] = r; self.anyconn(E, s); out.append((s, K(r)))
        return out
    def anyconn(self, E, st):
        super().anyconn(E, st); self.cput(st, 'handler', Fnp('http_connection_handler'))
    def event(self, E, st, *x):
        R = lambda rule, props, msg: self.report(E, st, rule, props, msg)
        cur = lambda v: st.current(v) if v.__class__ is Lin else v
        if x[0] in ('read', 'write'):
            fd, buf, n, k = cur(x[1]), x[2], cur(x[3]), x[4]; sock = self.cget(E, st, 'client_sock'); self.ob('transfers over the connection')
            if fd != sock: R('socket', ('C02', 'C16'), 'something else than the client\'s socket is used')
            if (x[0] == 'read') != (self.mode == 'read'): R('direction', ('C02',), 'the socket is read when it can be written, or written when it can be read')
            if st.g.get('io') is not None: R('twice', ('C21', 'C02'), 'the socket is used twice for one event')
            if x[0] == 'read':
                ok = buf.__class__ is Ptr and buf.o in (C, RING)
                if ok:
                    f = cur(buf.f) if buf.o == RING else cur(buf.f).plus(-(self.buf0 // 8))
                    if not st.prove(f.mul(-1)) or not st.prove(f.add(n).plus(-BUF)): R('buffer-end', ('C17',), 'what is received may be stored past the end of the input buffer')
                    w = cur(st.mem[C][self.wpos]); self.at = (f, w)
                    if not st.prove(cur(self.avail0).add(n).plus(-BUF)): R('buffer-full', ('C17', 'C02'), 'what is received may overwrite what was not looked at yet')
                else: R('buffer-end', ('C17',), 'what is received is stored outside of the input buffer')
            else:
                p, l = self.cget(E, st, 'output_buffer'), self.cget(E, st, 'output_length')
                if self.out0 is None: R('write-what', ('C01',), 'something else than the prepared output is sent')
                elif (buf, n) != (self.out0[0], self.out0[1]): R('write-what', ('C01', 'C17'), 'what is sent is not what was prepared')
            st.g['io'] = (x[0], fd, n, k)
            if k == MONE: e = fresh(1, 4095, 'errno'); st.cells(('G', 'g:errno'))[(0, 32)] = e; st.g['errno'] = e
            return
        DB.event(self, E, st, *x)
    def store(self, E, st, o, off, w, v, t):
        return DB.store(self, E, st, o, off, w, v, t)

class RSuite(HSuite):
    WORLD = RHttp
    def root(self, name, mode):
        W, E = self.W, self.E; t = time.time(); nx = 0
        W.mode = mode; W.actions = sorted({v for k, v in W.ec.items() if k in ('needs_more_read', 'continue_processing', 'close_connection', 'registered_write', 'needs_more_write')})
        key = self.key(name); f = self.P.functions[key]; self.where = '%s:%s (%s)' % (f['file'], f.get('l', 0), name)
        close = W.ec['close_connection']
        for ep in ((1, 0), (0, 1)) if mode == 'write' else ((1, 0),):
            for o in ((None,) if mode == 'read' else (None, 'const', 'heap')):
                d = self.first('cache_connection')._replace(epin=ep[0], epout=ep[1], handler='http_connection_handler')
                for st, e, T, what in ((s1, e, T, w) for s0, e, T, w in self.concretise(d) for s1 in self.places(s0)):
                    W.out0 = None; self.d = W.d = d
                    st.info.setdefault(('G', 'g:errno'), Info('global', 'i32', K(4)))
                    if o is not None:
                        n = fresh(1, 1 << 30, 'output_length'); at = fresh(0, 1 << 30, 'sent before'); b = W.mobj(st, 'output', 'i8', at.add(n)); p = Ptr(b, at)
                        W.cput(st, 'output_buffer', p); W.cput(st, 'output_length', n); W.cput(st, 'output_buffer_free', Ptr(b) if o == 'heap' else Z); W.out0 = (p, n)
                    W.avail0 = st.current(self.len0); E.stack = []; E.F = None
                    W.entry = '%s, %s' % (name, {None: 'nothing to send', 'const': 'constant text to send', 'heap': 'allocated text to send'}[o] if mode == 'write' else 'something may have arrived')
                    for s, v in E.run(st, key, [Ptr(C)]):
                        nx += 1; v = s.current(v) if v.__class__ is Lin else v
                        self.outcome(s, v, mode, close, d, o, W.out0)
        self.stats.append((name, nx, time.time() - t))
    def places(self, st0):
        """what was received lies in one piece, or goes on at the start of the ring; the positions may be about to wrap"""
        W = self.W
        for a in (0, 65536 // BUF - 1):
            for wrap in (0, 1):
                st = st0.copy(); r = fresh(0, BUF - 1, 'place'); l = fresh(0, BUF, 'received'); w = r.add(l).plus(-BUF * wrap)
                if not st.add_le(w.mul(-1)) or not st.add_le(st.current(w).plus(1 - BUF)): continue
                c = st.cells(C); c[W.rpos] = st.current(r).plus(a * BUF); c[W.wpos] = st.current(w).plus((a + wrap) % (65536 // BUF) * BUF); self.len0 = l
                yield st
    def outcome(self, st, v, mode, close, d, o, out0):
        W, E = self.W, self.E; W.ob('outcomes of events')
        R = lambda rule, props, msg: W.report(E, st, rule, props, msg, where=self.where)
        io = st.g.get('io'); disp = st.g.get('dispatched', 0); c = v.__class__ is Lin and v.const and v.c == close
        if not (v.__class__ is Lin and v.const): R('outcome', ('C02', 'C22'), 'it is not determined whether the connection is closed'); return
        e = st.g.get('errno'); e = st.current(e) if e is not None else None
        if disp:
            r = st.g.get('ret')
            if r == close and not c: R('close-lost', ('C22', 'C02'), 'the connection is kept although it is to be closed')
            if r != close and c and mode == 'read' and not st.prove(K(BUF).sub(st.current(W.avail(st)))): R('closed', ('C02',), 'the connection is closed although its request may be continued')
            if r != close and c and mode == 'write': R('closed', ('C02', 'C01'), 'the connection is closed although its response is to be continued')
        if io is None:
            if c and not disp and not (mode == 'read' and st.prove(K(BUF).sub(st.current(W.avail(st))))): R('closed', ('C02',), 'the connection is closed without a reason')
            if mode == 'write' and o is not None: R('not-sent', ('C01', 'C02'), 'what is prepared is not sent')
            return
        k = io[3]
        if k == MONE:
            if c and not disp and not st.prove_ne(e.plus(-EAGAIN)): R('again-closed', ('C02', 'C21'), 'the connection is closed because the socket is not ready')
            if (not c or disp) and not (e.const and e.c in (EAGAIN, EINTR)): R('error-ignored', ('C22', 'C21'), 'an error of the socket is ignored')
            if mode == 'write' and not c:
                if (W.cget(E, st, 'output_buffer'), W.cget(E, st, 'output_length')) != (out0[0], st.current(out0[1])) and not disp: R('output-changed', ('C01',), 'what is to be sent changes although nothing was sent')
            return
        if mode == 'read':
            if k == Z and not c: R('eof', ('C22', 'C21'), 'the connection is kept although the client closed it')
            if k != Z and c and not disp: R('closed', ('C02',), 'the connection is closed although something was received')
            if k != Z and not disp and not c: R('not-served', ('C02',), 'what was received is not looked at')
        else:
            k = st.current(k)
            if not disp:
                p, n = W.cget(E, st, 'output_buffer'), W.cget(E, st, 'output_length')
                if c: R('closed', ('C01', 'C02'), 'the connection is closed although something was sent')
                elif p == Z:
                    if not W.eqp(st, k, st.current(out0[1])): R('dropped', ('C01',), 'the rest of what was prepared is dropped')
                    if W.cget(E, st, 'output_buffer_free') != Z: R('output-left', ('C06', 'C01'), 'what was sent is not released')
                else:
                    if p.__class__ is not Ptr or p.o != out0[0].o or not W.eqp(st, st.current(p.f), st.current(out0[0].f.add(k))) or not W.eqp(st, n, st.current(out0[1].sub(k))): R('resume', ('C01',), 'what is sent next does not follow what was sent')
            if o == 'heap' and (disp or W.cget(E, st, 'output_buffer') == Z) and st.info[out0[0].o].status != 'freed': R('output-leak', ('C06', 'C26'), 'what was sent is not freed')
            if o == 'heap' and not disp and W.cget(E, st, 'output_buffer') != Z and st.info[out0[0].o].status == 'freed': R('output-freed', ('C06', 'C17'), 'what is still to be sent is freed')
def run(P):
    S = RSuite(P)
    S.root('http_read_handle', 'read'); S.root('http_write_handle', 'write')
    return S
if __name__ == '__main__':
    import prog
    S = run(prog.Program('release')); print(S.stats)
    for f in S.W.findings.values(): print(f.props, f.text()[:600])
    print(S.W.obl)
