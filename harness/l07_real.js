'use strict';
// Browsers of the L07 stage over real sockets: fetch the page and its script over HTTP from the server under test, run the
// script in contexts whose WebSocket is node's own client, and send back whatever the server calls. Requests, one per line:
//   go <port> <browsers>   answer: one word per browser, ok or what went wrong
//   sockets <port> <n>     opens and closes n sockets, answers likewise
const vm = require('vm'), http = require('http'), zlib = require('zlib'), readline = require('readline');
const get = (port, path) => new Promise((resolve, reject) => {
    http.get({ host: '127.0.0.1', port, path, headers: { 'Accept-Encoding': 'gzip, deflate, br' }, agent: false }, r => {
        const parts = [];
        r.on('data', d => parts.push(d)).on('error', reject).on('end', () => {
            try {
                if (r.statusCode !== 200) throw new Error(path + ' status ' + r.statusCode);
                let b = Buffer.concat(parts);
                const e = r.headers['content-encoding'];
                if (e === 'gzip') b = zlib.gunzipSync(b);
                else if (e === 'br') b = zlib.brotliDecompressSync(b);
                else if (e === 'deflate') b = zlib.inflateSync(b);
                resolve(b.toString('utf8'));
            } catch (x) { reject(x); }
        });
    }).on('error', reject);
});
async function browser(port) {
    const page = await get(port, '/');
    if (!page.includes('WebFront.js')) return 'page-without-script:' + JSON.stringify(page.slice(0, 80)).replace(/ /g, '_');
    const source = await get(port, '/WebFront.js');
    let finish, socket;
    const finished = new Promise(r => { finish = r; });
    const errors = [];
    const sandbox = {
        Uint8Array, Uint32Array, ArrayBuffer, DataView, TextDecoder, TextEncoder,
        console: { log() {}, warn() {}, info() {}, error(e) { errors.push('console.error: ' + e); } },
        location: { port: String(port) },
        WebSocket: function (url, protocol) {
            socket = new WebSocket(url.replace('localhost', '127.0.0.1'), protocol);
            socket.addEventListener('error', e => { errors.push('socket: ' + (e.error && e.error.message || e.message || e.type)); finish(); });
            socket.addEventListener('close', () => finish());
            return socket;
        },
        document: { createElement: kind => ({ kind }), body: { appendChild(e) { vm.runInContext(e.text, context); } } },
    };
    sandbox.window = sandbox;
    const context = vm.createContext(sandbox);
    const call = name => vm.runInContext('webFront', context).cppFunction(name);
    sandbox.echo = (...a) => call('back')(...a);
    sandbox.list = (k, a) => call('listed')(k, Array.from(a));
    sandbox.finish = () => setTimeout(() => { socket.close(1000, 'done'); finish(); }, 20);
    vm.runInContext(source, context);
    const late = new Promise(r => setTimeout(r, 40000, 'late').unref());
    const r = await Promise.race([finished, late]);
    if (r === 'late') return 'late';
    return errors.length ? 'error:' + errors[0].replace(/\s/g, '_') : 'ok';
}
readline.createInterface({ input: process.stdin, crlfDelay: Infinity }).on('line', async line => {
    const w = line.split(' ');
    if (typeof WebSocket !== 'function') return void process.stdout.write('unsupported\n');
    const all = [];
    if (w[0] === 'sockets') { // sockets <port> <n>: opened one after the other, each with a key of its own
        for (let i = 0; i < +w[2]; ++i) all.push(await new Promise(r => {
            const s = new WebSocket('ws://127.0.0.1:' + w[1] + '/', i % 2 ? [] : 'WebFront_0.1');
            const t = setTimeout(r, 40000, 'late');
            const end = x => { clearTimeout(t); r(x); };
            s.onopen = () => { s.close(); end('ok'); };
            s.onerror = e => end('error:' + String(e.error && e.error.message || e.message || e.type).replace(/\s/g, '_'));
        }));
        return void process.stdout.write(all.join(' ') + '\n');
    }
    for (let i = 0; i < +w[2]; ++i) all.push(browser(+w[1]).catch(e => (e && e.cause && e.cause.code === 'ECONNREFUSED' ? 'late' : 'error:' + String(e && e.cause || e).replace(/\s/g, '_'))));
    process.stdout.write((await Promise.all(all)).join(' ') + '\n');
});
