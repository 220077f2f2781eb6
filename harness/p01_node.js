'use strict';
// Shows the pages of the demonstration programs. One request per line: kind, the page, then pairs url:encoding:bytes of what it refers
// to (all in hexadecimal); one line as the answer: "ok <hex of what is shown>" or "BAD <hex of the reason>".
const vm = require('vm'), zlib = require('zlib'), readline = require('readline');
const text = h => Buffer.from(h, 'hex').toString('utf8');
function decode(encoding, b) {
    if (encoding === 'gzip') return zlib.gunzipSync(b);
    if (encoding === 'br') return zlib.brotliDecompressSync(b);
    if (encoding === 'deflate') return zlib.inflateSync(b);
    if (encoding === '') return b;
    throw new Error('encoding ' + encoding);
}
/// the text of an element tree
function render(e) {
    if (e === null || e === undefined || e === false || e === true) return '';
    if (Array.isArray(e)) return e.map(render).join('');
    if (typeof e !== 'object') return String(e);
    if (typeof e.type === 'function') {
        if (e.type.prototype && e.type.prototype.isReactComponent) return render(new e.type(e.props).render());
        return render(e.type(e.props));
    }
    const inner = render(e.props.children);
    return typeof e.type === 'string' ? '<' + e.type + '>' + inner + '</' + e.type + '>' : inner;
}
const kinds = {
    react(page, files) {
        const c = { console, setTimeout, clearTimeout, process: undefined };
        c.window = c.self = c.globalThis = c;
        let shown = null;
        const root = {};
        c.document = { getElementById: id => (page.includes(`id="${id}"`) ? root : null) };
        vm.createContext(c);
        for (const [url, code] of files) {
            if (url.includes('react-dom')) { // needs a complete browser: only compiled
                new vm.Script(code, { filename: url });
                c.ReactDOM = { render(e, at) { if (at !== root) throw new Error('rendered nowhere'); shown = render(e); } };
            }
            else vm.runInContext(code, c, { filename: url, timeout: 60000 });
        }
        const scripts = page.match(/<script type="text\/babel">([\s\S]*?)<\/script>/);
        vm.runInContext(c.Babel.transform(scripts[1], { presets: ['react'] }).code, c, { timeout: 60000 });
        if (shown === null) throw new Error('nothing rendered');
        return shown;
    },
    async jasmine(page, files) {
        const sent = [];
        const c = { console: { log() {}, error() {}, warn() {}, info() {} }, setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, Uint8Array, Uint32Array, ArrayBuffer, DataView, TextDecoder, TextEncoder, location: { port: '9002' } };
        c.window = c.self = c.globalThis = c;
        c.WebSocket = function () {
            c.socket = this;
            this.readyState = 0;
            this.send = data => sent.push(Buffer.from(ArrayBuffer.isView(data) ? data.buffer : data).toString('hex'));
        };
        c.document = { createElement: () => ({}), body: { appendChild() {} } };
        c.addEventListener = c.removeEventListener = () => {};
        vm.createContext(c);
        let env = null;
        for (const [url, code] of files) {
            if (/\.(css|png)$/.test(url)) continue;
            if (/jasmine-html|boot/.test(url)) { // need a complete browser: only compiled, the core is started here
                new vm.Script(code, { filename: url });
                continue;
            }
            vm.runInContext(code, c, { filename: url, timeout: 60000 });
            if (url.endsWith('/jasmine.js')) {
                const j = c.jasmineRequire.core(c.jasmineRequire);
                env = j.getEnv();
                Object.assign(c, c.jasmineRequire.interface(j, env));
            }
            if (url === 'WebFront.js') {
                c.socket.readyState = 1;
                c.socket.onopen({});
            }
        }
        const results = [];
        env.addReporter({ specDone(r) { results.push(r.fullName + ': ' + r.status + r.failedExpectations.map(f => ' ' + f.message).join('')); } });
        const done = await env.execute();
        return done.overallStatus + '\n' + results.join('\n') + '\n' + sent.join(' ');
    },
};
let queue = Promise.resolve();
readline.createInterface({ input: process.stdin }).on('line', line => {
    queue = queue.then(async () => {
        let answer;
        try {
            const [kind, page, ...files] = line.split(' ');
            const shown = await kinds[kind](text(page), files.map(f => {
                const [url, encoding, bytes] = f.split(':');
                return [text(url), decode(text(encoding), Buffer.from(bytes, 'hex')).toString('utf8')];
            }));
            answer = 'ok ' + Buffer.from(shown, 'utf8').toString('hex');
        } catch (e) {
            answer = 'BAD ' + Buffer.from(String(e && e.stack || e).slice(0, 600), 'utf8').toString('hex');
        }
        process.stdout.write(answer + '\n');
    });
});
