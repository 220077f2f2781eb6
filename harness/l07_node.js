'use strict';
// Browsers of the L07 harness: each runs the client script of the library in a context of its own, with a WebSocket, window,
// document and console that only record. One request per line, one line of events as the answer:
//   S<hex>      bytes sent on the socket
//   C<name>:<v> a function of the page was called with the arguments v
//   X<hex>      a script was appended and executed without an error
//   E<hex>      an error was thrown or reported
const vm = require('vm'), zlib = require('zlib'), readline = require('readline');

const hex = t => Buffer.from(t, 'utf8').toString('hex');
function show(v) {
    switch (typeof v) {
    case 'boolean': return v ? 't' : 'f';
    case 'number': {
        if (Number.isNaN(v)) return 'nNaN;';
        const b = Buffer.alloc(8);
        b.writeDoubleLE(v);
        return 'n' + b.toString('hex') + ';';
    }
    case 'string': return 's' + hex(v) + ';';
    case 'undefined': return 'u';
    default: return Array.isArray(v) || (v && typeof v.length === 'number') ? '[' + Array.from(v).map(show).join('') + ']' : '?' + typeof v + ';';
    }
}
function read(t) { // the inverse, for the arguments of calls
    let at = 0;
    const until = () => { const e = t.indexOf(';', at), r = t.slice(at, e); at = e + 1; return r; };
    const value = () => {
        switch (t[at++]) {
        case 't': return true;
        case 'f': return false;
        case 'n': { const h = until(); return h === 'NaN' ? NaN : Buffer.from(h, 'hex').readDoubleLE(0); }
        case 's': return Buffer.from(until(), 'hex').toString('utf8');
        case '[': { const a = []; while (t[at] !== ']') a.push(value()); ++at; return a; }
        default: throw new Error('bad value ' + t.slice(at - 1, at + 20));
        }
    };
    return value();
}
let source = '';
const pages = new Map();
function open(port, paths) {
    const events = [];
    const page = { events, socket: null, sockets: 0 };
    const sandbox = {
        Uint8Array, Uint32Array, ArrayBuffer, DataView, TextDecoder, TextEncoder,
        console: { log() {}, error(e) { events.push('E' + hex('console.error: ' + e)); }, warn() {}, info() {} },
        location: { port },
        WebSocket: function (url, protocols) {
            ++page.sockets;
            page.socket = this;
            page.url = url;
            page.protocol = protocols;
            this.readyState = 0;
            this.send = data => {
                if (this.readyState !== 1) throw new Error('socket is not open');
                const b = ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : typeof data === 'string' ? null : Buffer.from(data);
                events.push(b ? 'S' + b.toString('hex') : 'E' + hex('text sent'));
            };
        },
        document: {
            createElement: kind => ({ kind }),
            body: { appendChild(e) {
                if (e.kind !== 'script') return void events.push('E' + hex('element ' + e.kind));
                try {
                    vm.runInContext(e.text, page.context);
                    events.push('X' + hex(e.text));
                } catch (err) { events.push('E' + hex('script: ' + err)); }
            } },
        },
    };
    sandbox.window = sandbox;
    sandbox.record = (name, args) => { events.push('C' + hex(name) + ':' + show(args)); };
    page.context = vm.createContext(sandbox);
    for (const path of paths) {
        const parts = path.split('.');
        let at = sandbox;
        for (const p of parts.slice(0, -1)) at = at[p] = at[p] || {};
        at[parts[parts.length - 1]] = function (...args) {
            events.push('C' + hex(path) + ':' + show(args));
            if (path === 'bounce') vm.runInContext('webFront', page.context).cppFunction('bounced')(...args);
        };
    }
    vm.runInContext(source, page.context);
    return page;
}
readline.createInterface({ input: process.stdin, crlfDelay: Infinity }).on('line', line => {
    const w = line.split(' ');
    let page = pages.get(w[1]), extra = '';
    try {
        switch (w[0]) {
        case 'source': {
            let b = Buffer.from(w[2], 'hex');
            if (w[1] === 'gzip') b = zlib.gunzipSync(b);
            else if (w[1] === 'br') b = zlib.brotliDecompressSync(b);
            else if (w[1] === 'deflate') b = zlib.inflateSync(b);
            source = b.toString('utf8');
            break;
        }
        case 'open': // id, port, names of the functions of the page
            page = open(w[2], w.slice(3).map(h => Buffer.from(h, 'hex').toString('utf8')));
            pages.set(w[1], page);
            if (page.sockets !== 1) page.events.push('E' + hex(page.sockets + ' sockets opened'));
            if (!/^ws:\/\//.test(page.url) || !page.url.endsWith(':' + w[2])) page.events.push('E' + hex('url ' + page.url));
            page.socket.readyState = 1;
            page.socket.onopen({});
            break;
        case 'frame': { // id, what a browser hands over for a binary frame
            const b = Buffer.from(w[2] || '', 'hex');
            const data = new ArrayBuffer(b.length);
            new Uint8Array(data).set(b);
            page.socket.onmessage({ data });
            break;
        }
        case 'call': // id, name, arguments
            vm.runInContext('webFront', page.context).cppFunction(Buffer.from(w[2], 'hex').toString('utf8'))(...read(w[3]));
            break;
        case 'state': extra = 'state=' + vm.runInContext('webFront.state', page.context) + ',little=' + vm.runInContext('webFront.littleEndian', page.context); break;
        case 'close':
            page.socket.readyState = 3;
            page.socket.onclose({ wasClean: true, code: 1000, reason: '' });
            pages.delete(w[1]);
            break;
        default: throw new Error('unknown request');
        }
    } catch (e) {
        if (!page) return void process.stdout.write('E' + hex(String(e && e.stack || e)) + '\n');
        page.events.push('E' + hex(String(e)));
    }
    process.stdout.write((page ? page.events.splice(0).concat(extra || []).join(' ') : 'ok') + '\n');
});
