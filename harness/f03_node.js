'use strict';
// Judges one embedded asset per line: {name, encoding, kind, hex}. Answers "ok ..." or "BAD key | detail".
const zlib = require('zlib'), vm = require('vm'), readline = require('readline');

function decode(encoding, bytes) {
    let r;
    if (encoding === 'br') r = zlib.brotliDecompressSync(bytes, { info: true });
    else if (encoding === 'gzip') r = zlib.gunzipSync(bytes, { info: true });
    else if (encoding === 'deflate') r = zlib.inflateSync(bytes, { info: true });
    else if (encoding === '') return bytes;
    else throw Object.assign(new Error('unknown content encoding ' + encoding), { key: 'encoding' });
    if (r.engine.bytesWritten !== bytes.length)
        throw Object.assign(new Error(`the compressed stream ends after ${r.engine.bytesWritten} of ${bytes.length} bytes`), { key: 'trailing data' });
    return r.buffer;
}
const fail = (key, text) => { throw Object.assign(new Error(text), { key }); };
function utf8(b) {
    return new TextDecoder('utf-8', { fatal: true }).decode(b);
}
function crc32(b) {
    return zlib.crc32 ? zlib.crc32(b) : null;
}
function png(b) {
    if (b.subarray(0, 8).toString('hex') !== '89504e470d0a1a0a') fail('content', 'no PNG signature');
    let at = 8, last = '', idat = [];
    while (at < b.length) {
        const n = b.readUInt32BE(at), type = b.toString('latin1', at + 4, at + 8);
        if (at + 12 + n > b.length) fail('content', 'PNG chunk beyond the end');
        const c = crc32(b.subarray(at + 4, at + 8 + n));
        if (c !== null && c !== b.readUInt32BE(at + 8 + n)) fail('content', 'PNG chunk checksum of ' + type);
        if (type === 'IDAT') idat.push(b.subarray(at + 8, at + 8 + n));
        last = type;
        at += 12 + n;
    }
    if (last !== 'IEND') fail('content', 'PNG does not end with IEND');
    zlib.inflateSync(Buffer.concat(idat));
}
function ico(b) {
    if (b.length < 6 || b.readUInt16LE(0) !== 0 || b.readUInt16LE(2) !== 1 || b.readUInt16LE(4) === 0) fail('content', 'no icon header');
    let end = 6 + 16 * b.readUInt16LE(4);
    for (let i = 0; i < b.readUInt16LE(4); ++i) {
        const size = b.readUInt32LE(6 + 16 * i + 8), off = b.readUInt32LE(6 + 16 * i + 12);
        if (off + size > b.length || size === 0) fail('content', 'icon image beyond the end');
        const head = b.subarray(off, off + 8).toString('hex');
        if (head === '89504e470d0a1a0a') png(b.subarray(off, off + size));
        else if (b.readUInt32LE(off) !== 40) fail('content', 'neither a PNG nor a bitmap');
        end = Math.max(end, off + size);
    }
    if (end !== b.length) fail('content', 'bytes after the last image');
}
function css(t) {
    const s = t.replace(/\/\*[\s\S]*?\*\//g, '').replace(/"(\\.|[^"\\\n])*"|'(\\.|[^'\\\n])*'|url\([^)]*\)/g, '""');
    let depth = 0;
    for (const c of s) {
        if (c === '{') ++depth;
        if (c === '}' && --depth < 0) fail('content', 'unbalanced style sheet');
    }
    if (depth !== 0 || !/\{[^{}]*:[^{}]*\}/.test(s) || /[\0-\x08\x0e-\x1f]/.test(s)) fail('content', 'not a complete style sheet');
    for (const block of s.match(/\{[^{}]*\}/g)) // every declaration has the form name: value
        for (const d of block.slice(1, -1).split(';'))
            if (d.trim() && !/^\s*[-\w*]+\s*:\s*\S/.test(d)) fail('content', 'bad style declaration ' + d.slice(0, 60));
}
function html(t) {
    if (!/^\s*(<!doctype html|<html)/i.test(t)) fail('content', 'not an HTML document');
    if (/[\0-\x08\x0e-\x1f]/.test(t)) fail('content', 'control characters in the HTML document');
    for (const tag of ['html', 'head', 'body', 'script', 'title'])
        if ((t.match(new RegExp('<' + tag + '\\b', 'gi')) || []).length < (t.match(new RegExp('</' + tag + '\\s*>', 'gi')) || []).length) fail('content', 'unbalanced ' + tag);
}
const run = (code, name, ctx) => { vm.createContext(ctx); new vm.Script(code, { filename: name }).runInContext(ctx, { timeout: 20000 }); return ctx; };
const kinds = {
    png, ico,
    css: b => css(utf8(b)),
    html: b => { const t = utf8(b); html(t); if (!t.includes('WebFront.js')) fail('content', 'the index page does not load WebFront.js'); },
    js: b => { new vm.Script(utf8(b)); },
    jasmine: b => {
        const c = run(utf8(b), 'jasmine.js', { console, setTimeout, clearTimeout, setInterval, clearInterval });
        c.window = c;
        const r = c.jasmineRequire || c.getJasmineRequireObj && c.getJasmineRequireObj();
        if (!r || !r.core) fail('content', 'jasmineRequire is not defined');
        const j = r.core(r);
        if (j.version !== '4.6.0') fail('content', 'Jasmine version ' + j.version);
    },
    react: b => {
        const c = {};
        c.self = c; c.window = c;
        run(utf8(b), 'react.js', c);
        const c2 = c.React;
        if (!c2 || !/^18\./.test(c2.version) || c2.createElement('a', { b: 1 }).props.b !== 1) fail('content', 'not React 18');
    },
    reactdom: b => {
        const t = utf8(b);
        new vm.Script(t);
        if (!/version:\s*"18\.|reconcilerVersion:\s*"18\./.test(t) || !t.includes('createRoot')) fail('content', 'not React DOM 18');
    },
    babel: b => {
        const c = { console, setTimeout, clearTimeout, process: undefined };
        c.globalThis = c; c.window = c; c.self = c;
        run(utf8(b), 'babel.js', c);
        if (!c.Babel || c.Babel.version !== '7.22.5') fail('content', 'not Babel 7.22.5');
        const out = c.Babel.transform('const e = <a b={1}>x</a>;', { presets: ['react'] }).code;
        if (!/React\.createElement\("a"/.test(out)) fail('content', 'Babel transforms to ' + out);
    },
    client: b => {
        const t = utf8(b);
        new vm.Script(t);
        if (!t.includes('WebSocket')) fail('content', 'the client script opens no WebSocket');
    },
};
readline.createInterface({ input: process.stdin }).on('line', line => {
    const q = JSON.parse(line), bytes = Buffer.from(q.hex, 'hex');
    let answer;
    try {
        let data;
        try { data = decode(q.encoding, bytes); }
        catch (e) { throw Object.assign(e, { key: e.key && typeof e.key === 'string' ? e.key : 'does not decode' }); }
        if (data.length === 0) fail('content', 'empty');
        kinds[q.kind](data);
        answer = `ok ${data.length} bytes decoded`;
    } catch (e) {
        answer = `BAD ${e.key || 'content'} | ${String(e.message).split('\n')[0]}`;
    }
    process.stdout.write(answer + '\n');
});
