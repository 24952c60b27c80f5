// Real loopback HTTP: requests accepted by the fetch monitor are sent with the
// platform's own fetch to a local server that plays the scripted response.
import http from 'node:http';
import zlib from 'node:zlib';
import { Buffer } from 'node:buffer';
import { als, real } from './world.mjs';

const NULL_BODY = new Set([204, 205, 304]);
export async function startWire() {
  const pending = new Map();
  let n = 0;
  const server = http.createServer({ maxHeaderSize: 1 << 26 }, (req, res) => {
    const chunks = [];
    req.on('data', (c) => chunks.push(c));
    req.on('error', () => {});
    res.on('error', () => {});
    req.on('end', () => {
      const p = pending.get(req.headers['x-verif-tok']);
      pending.delete(req.headers['x-verif-tok']);
      if (!p) { res.destroy(); return; }
      p.seen.body = Buffer.concat(chunks); p.seen.method = req.method; p.seen.url = req.url; p.seen.headers = req.headers;
      const r = p.resp;
      if ('net' in r) { req.socket.destroy(); return; }
      const headers = new Map();
      for (const [k, v] of new Headers(r.headers ?? []).entries()) { if (k === 'set-cookie') headers.set(k, [...(headers.get(k) ?? []), v]); else headers.set(k, v); }
      for (const [k, v] of headers) { try { res.setHeader(k, v); } catch {} }
      res.statusMessage = /^[\x20-\x7e]*$/.test(r.statusText ?? '') ? r.statusText ?? '' : '';
      res.statusCode = r.status;
      if (NULL_BODY.has(r.status)) { res.end(); return; }
      let body = r.body == null ? Buffer.alloc(0) : Buffer.isBuffer(r.body) ? r.body : Buffer.from(r.body);
      if (r.gzip && !('streamError' in r)) { body = zlib.gzipSync(body); res.setHeader('content-encoding', 'gzip'); }
      if ('streamError' in r) {
        res.setHeader('content-length', body.length + 10);
        res.flushHeaders();
        const cut = Math.min(body.length, r.cut ?? 0);
        if (cut) res.write(body.subarray(0, cut), () => res.socket?.destroy()); else setImmediate(() => res.socket?.destroy());
        return;
      }
      if (r.chunked > 1 && body.length > 1) {
        const step = Math.ceil(body.length / r.chunked); let off = 0;
        const next = () => { if (off >= body.length) { res.end(); return; } res.write(body.subarray(off, off + step), () => setImmediate(next)); off += step; };
        next(); return;
      }
      res.end(body);
    });
  });
  server.maxHeadersCount = 0; // limits of this server are not the SDK's business
  server.keepAliveTimeout = 20000;
  await new Promise((ok, no) => { server.once('error', no); server.listen(0, '127.0.0.1', ok); });
  server.unref();
  const port = server.address().port;
  return {
    port, passed: 0, server,
    async pass(ev, req, resp) {
      const tok = String(++n);
      const seen = (ev.wireSeen = {});
      pending.set(tok, { resp, seen });
      this.passed++;
      const url = `http://127.0.0.1:${port}${ev.url.pathname}${ev.url.search}`;
      const headers = new Headers(req.headers);
      headers.set('x-verif-tok', tok);
      return real.fetch(url, { method: req.method, headers, body: ev.body.length ? ev.body : undefined, signal: req.signal, redirect: req.redirect });
    },
    /** what arrived over the wire must be what the monitor saw leave the SDK */
    check(ev) {
      const s = ev.wireSeen;
      if (!s?.method) return null;
      if (s.method !== ev.method || s.url !== ev.url.pathname + ev.url.search || !s.body.equals(ev.body)) return `wire saw ${s.method} ${s.url} (${s.body.length} B), monitor saw ${ev.method} ${ev.url.pathname}${ev.url.search} (${ev.body.length} B)`;
      return null;
    },
    close() { server.closeAllConnections(); server.close(); },
  };
}
