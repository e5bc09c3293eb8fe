// C30: the shipped JavaScript module (wasm/src/credential.js), explored.
//   node glue.js TIER OUTDIR JSCALL
// The module is the real one; the WebAssembly instance behind it is a stand-in that does, within each call, every
// sequence of the things compiled code can do (use a value, make one, parse text, release a value, grow the memory,
// throw), and a reference model of live values and buffers is kept next to it.
'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process');
const [tier, out, jscall] = process.argv.slice(2);
const thorough = tier === 'thorough';
const FILE = '/repo/wasm/src/credential.js';
const bad = [];
const stats = { executions: 0, calls: 0, events: 0 };
const seen = new Set();
function violation(m) { if (bad.length < 5) bad.push(m); }
class Wrong extends Error {}
const kinds = new Map(cp.execFileSync(jscall, ['kinds']).toString().trim().split('\n').map(l => l.split(' ')).map(([n, k]) => [n, k || '']));

let load;
try { load = new Function('self', 'window', 'global', 'fetch', 'WebAssembly', 'TextDecoder', 'TextEncoder', fs.readFileSync(FILE, 'utf8') + '\n;return self.wasm_bindgen;'); }
catch (e) { violation(`${FILE} does not parse: ${e.message}`); }

// ---- the stand-in for the instance ----
class Instance {
    constructor(grows) {
        this.buffer = new ArrayBuffer(1024); this.top = 64; this.buffers = new Map(); this.mallocs = 0; this.grows = grows;
        this.live = new Map();       // handle -> the value it stands for
        this.handles = new Set(); this.peak = 0;
        this.script = []; this.result = 0; this.trace = [];
        const me = this;
        this.memory = { get buffer() { return me.buffer; } };
        this.exports = { memory: this.memory, __wbindgen_malloc: n => me.malloc(n), __wbindgen_free: (p, n) => me.free(p, n) };
        for (const [name, k] of kinds) this.exports[name] = (...a) => me.called(name, k, a);
    }
    grow(n) { this.buffer = this.buffer.transfer(this.buffer.byteLength + n); }
    malloc(n) {
        stats.events++;
        if (n !== (n >>> 0)) throw new Wrong(`a buffer of ${n} bytes is asked for`);
        if (this.grows >> this.mallocs++ & 1) this.grow(512);
        if (n === 0) { this.buffers.set(1, (this.buffers.get(1) || []).concat([0])); return 1; }
        const p = this.top; this.top += this.grows & 1 ? (n + 15) & ~7 : n;   // next to each other, or not
        while (this.top > this.buffer.byteLength) this.grow(1024);
        new Uint8Array(this.buffer).fill(0xaa, p, p + n);
        this.buffers.set(p, [n]);
        return p;
    }
    free(p, n) {
        stats.events++;
        const l = this.buffers.get(p) || [], i = l.indexOf(n);
        if (i < 0) throw new Wrong(`a buffer is freed that is not there: ${p}, ${n} bytes`);
        l.splice(i, 1); if (l.length === 0) this.buffers.delete(p);
        if (n) new Uint8Array(this.buffer).fill(0xbb, p, p + n);
    }
    bytes(p, n) { return Array.from(new Uint8Array(this.buffer).slice(p, p + n)); }
    text(idx, value) {          // __wbindgen_json_serialize, as compiled code calls it
        stats.events++;
        const at = 16;
        const n = this.imports.__wbindgen_json_serialize(idx, at);
        const p = new Uint32Array(this.buffer)[at / 4];
        const got = Buffer.from(this.bytes(p, n)).toString('utf8');
        this.free(p, n);
        const t = JSON.stringify(value), want = Buffer.from(t === undefined ? '' : t).toString('utf8');
        if (got !== want) throw new Wrong(`the value ${show(value)} arrives as ${show(got)}`);
        return got;
    }
    adopt(h, value) {
        if (h !== (h | 0)) throw new Wrong(`${show(value)} has the handle ${h}`);
        if (this.live.has(h)) throw new Wrong(`${show(value)} and ${show(this.live.get(h))} have the same handle`);
        this.live.set(h, value); this.handles.add(h); this.peak = Math.max(this.peak, this.live.size);
        return h;
    }
    drop(h) { stats.events++; this.live.delete(h); this.imports.__wbindgen_object_drop_ref(h); }
    called(name, k, a) {
        if (name !== this.expect.name) throw new Wrong(`${this.expect.name} calls ${name}`);
        let i = 0; const args = [];
        for (const [j, c] of [...k].entries()) {
            const want = this.expect.args[j];
            if (c === 'b') {
                const [p, n] = [a[i++], a[i++]];
                args.push([p, n]);
                if (this.bytes(p, n).join() !== Array.from(want).join() || n !== want.length) throw new Wrong(`argument ${j + 1} of ${name} arrives as other bytes`);
            } else args.push(this.adopt(a[i++], want));
        }
        if (i !== a.length) throw new Wrong(`${name} is called with ${a.length} arguments instead of ${i}`);
        // the bytes are still there after everything else was handed over
        this.inside = () => { for (const [j, c] of [...k].entries()) if (c === 'b' && this.bytes(...args[j]).join() !== Array.from(this.expect.args[j]).join()) throw new Wrong(`argument ${j + 1} of ${name} changes during the call`); };
        return this.act(this.script);
    }
    act(script) {
        for (const op of script) {
            stats.events++;
            const hs = [...this.live.keys()];
            switch (op[0]) {
                case 'use': this.text(hs[op[1]], this.live.get(hs[op[1]])); break;
                case 'drop': this.drop(hs[op[1]]); break;
                case 'number': this.adopt(this.imports.__wbindgen_number_new(op[1]), op[1]); break;
                case 'parse': {
                    const b = Buffer.from(op[1]); const p = this.malloc(b.length);
                    new Uint8Array(this.buffer).set(b, p);
                    let h, error = null;
                    try { h = this.imports.__wbindgen_json_parse(p, b.length); } catch (e) { error = e; }
                    this.free(p, b.length);
                    let ok = true; try { JSON.parse(op[1]); } catch (e) { ok = false; }
                    if (error) { if (ok || error instanceof Wrong) throw ok ? new Wrong(`parsing ${op[1]} fails: ${error.message}`) : error; this.thrown = error; throw error; }
                    if (!ok) throw new Wrong(`${op[1]} is parsed`);
                    this.adopt(h, JSON.parse(op[1])); break;
                }
                case 'grow': this.grow(256); break;
                case 'throw': {
                    const b = Buffer.from(op[1]); const p = this.malloc(b.length);
                    new Uint8Array(this.buffer).set(b, p);
                    let error = null;
                    try { this.imports.__wbindgen_throw(p, b.length); } catch (e) { error = e; }
                    this.free(p, b.length);
                    if (!error || error.message !== op[1]) throw new Wrong(`the error ${op[1]} is not thrown on`);
                    this.thrown = error; throw error;
                }
                case 'end': { this.inside(); const h = hs[op[1]]; this.result = this.live.get(h); this.live.delete(h); return h; }
                case 'trap': this.thrown = new Error('unreachable'); throw this.thrown;
            }
        }
    }
}
function show(x) { const t = JSON.stringify(x); return t === undefined ? String(x) : t.length > 80 ? t.slice(0, 80) + '...' : t; }

// how the module gets its instance
function start(instance, streaming) {
    const calls = [];
    const wa = { instantiate: (b, i) => { calls.push('instantiate'); instance.imports = i['./credential']; return Promise.resolve({ instance }); } };
    if (streaming) wa.instantiateStreaming = (b, i) => { calls.push('streaming'); instance.imports = i['./credential']; return Promise.resolve({ instance }); };
    const self = {}, f = p => { calls.push(p); return Promise.resolve({ arrayBuffer: () => Promise.resolve(new ArrayBuffer(8)) }); };
    const module = load(self, self, self, f, wa, TextDecoder, TextEncoder) || self.wasm_bindgen;
    return { module, calls };
}

// one execution: calls in a row on a new instance of the module
async function execute(calls, grows, streaming) {
    stats.executions++;
    const instance = new Instance(grows);
    const describe = () => `${calls.map(c => `${c.name}(${c.args.map(show).join(', ')}) doing ${show(c.script)}`).join(', then ')}${grows ? `, memory growing at allocations ${grows.toString(2)}` : ''}`;
    try {
        const { module } = start(instance, streaming);
        await module('credential_bg.wasm');
        if (!instance.imports) throw new Wrong('the instance is not made with the imports');
        for (const c of calls) {
            stats.calls++;
            instance.expect = c; instance.script = c.script; instance.result = undefined; instance.thrown = null;
            let got, error = null;
            try { got = module[c.name](...c.args); } catch (e) { error = e; }
            if (error instanceof Wrong) throw error;
            if (error !== instance.thrown && !(error && instance.thrown && error.message === instance.thrown.message)) throw new Wrong(error ? `${c.name} throws ${error.message}` : `${c.name} hides the error ${instance.thrown.message}`);
            if (!error) {
                const same = got === instance.result || JSON.stringify(got) === JSON.stringify(instance.result) && typeof got === typeof instance.result;
                if (!same) throw new Wrong(`${c.name} gives ${show(got)} instead of ${show(instance.result)}`);
            }
            if (instance.buffers.size) throw new Wrong(`${c.name} leaves a buffer behind`);
        }
        // what is still held is still what it was, and released slots are used again
        for (const [h, v] of [...instance.live]) instance.text(h, v);
        for (const h of [...instance.live.keys()]) instance.drop(h);
        for (let i = 0; i < instance.peak; i++) instance.adopt(instance.imports.__wbindgen_number_new(1000 + i), 1000 + i);
        for (const [h, v] of [...instance.live]) instance.text(h, v);
        if (instance.handles.size > instance.peak) throw new Wrong(`${instance.handles.size} handles for at most ${instance.peak} values at a time: released ones are not used again`);
    } catch (e) { violation(`${describe()}: ${e instanceof Wrong ? e.message : 'fails: ' + (e && e.message)}`); }
    if (seen.size < 3e6) seen.add(`${calls.map(c => c.name + show(c.script) + c.args.length).join()}/${grows}`);
}

// ---- the space ----
const VALUES = [{ a: [1, 2, { b: 'é😀' }] }, [1, 2, 3], 'text \u0000 "quoted" \u{1f600} é', 0, 1.5, null, true, false, '', [], undefined, { toString: 'x' }, [[], [null]], -0];
const sub = Uint8Array.from({ length: 64 }, (_, i) => i + 1).subarray(7, 39);
const BYTES = [Uint8Array.from({ length: 32 }, (_, i) => 255 - i), sub, new Uint8Array(0), Uint8Array.of(0), Uint8Array.from({ length: 300 }, (_, i) => i), Buffer.from([1, 4, 1, 5, 5, 5, 5]), [1, 2, 3]];
function args(name, v, b) { let i = v, j = b; return [...kinds.get(name)].map(c => c === 'b' ? BYTES[j++ % BYTES.length] : VALUES[i++ % VALUES.length]); }
// every script of at most `depth` operations for a call that starts with `live` values; `wide` operations, or few
function* scripts(live, depth, wide) {
    if (live > 0) for (let i = 0; i < live; i++) yield [['end', i]];
    yield [['trap']];
    if (depth === 0) return;
    yield [['throw', 'é: oh no']];
    yield [['parse', '[1,']];
    const ops = [];
    for (let i = 0; i < live; i++) { ops.push([['drop', i], -1]); if (wide) ops.push([['use', i], 0]); }
    ops.push([['number', 0], 1], [['parse', '{"x":[1,"é😀"]}'], 1]);
    if (wide) ops.push([['number', 4294967295], 1], [['parse', '"s"'], 1], [['parse', 'null'], 1], [['grow'], 0], [['parse', ''], null]);
    for (const [op, d] of ops) { if (d === null) { yield [op]; continue; } for (const rest of scripts(live + d, depth - 1, wide)) yield [op, ...rest]; }
}
function held(script, live) { let n = live; for (const op of script) { if (op[0] === 'drop' || op[0] === 'end') n--; if (op[0] === 'number') n++; if (op[0] === 'parse') { try { JSON.parse(op[1]); n++; } catch (e) { break; } } } return n; }
const values = name => [...kinds.get(name)].filter(c => c === 'v').length;

async function modules() {
    // every function, every kind of argument in every place, memory growing at every subset of the allocations
    for (const name of kinds.keys()) {
        for (let v = 0; v < VALUES.length; v++) for (let b = 0; b < BYTES.length; b++) {
            const n = values(name), script = [];
            for (let i = 0; i < n; i++) script.push(['use', i]);
            script.push(['parse', '[7]'], ['end', n]);
            for (const streaming of [true, false]) await execute([{ name, args: args(name, v, b), script }], 0, streaming);
            if (v < 3 && b < 3) for (let g = 1; g < 128; g++) await execute([{ name, args: args(name, v, b), script }], g, true);
        }
        // one call, every sequence of operations
        for (const s of scripts(values(name), thorough ? 4 : 3, true)) await execute([{ name, args: args(name, 1, 0), script: s }], 0, true);
    }
    // two calls and three, what the first held being there in the next
    const some = ['system_parameters_create', 'issuer_create', 'issuer_get_issuer_parameters', 'user_show'].filter(n => kinds.has(n));
    for (const a of some) for (const b of some) {
        for (const s of scripts(values(a), 2, false)) for (const t of scripts(held(s, values(a)) + values(b), thorough ? 2 : 1, false)) {
            await execute([{ name: a, args: args(a, 0, 0), script: s }, { name: b, args: args(b, 2, 1), script: t }], 0, true);
            if (bad.length >= 5) return;
            if (!thorough || a !== b) continue;
            const n = held(t, held(s, values(a)) + values(b));
            for (const u of scripts(n + values(a), 1, false)) await execute([{ name: a, args: args(a, 0, 0), script: s }, { name: b, args: args(b, 2, 1), script: t }, { name: a, args: args(a, 4, 3), script: u }], 0, true);
        }
    }
    // many calls: nothing builds up
    for (const name of kinds.keys()) {
        const n = values(name);
        for (const s of [[['parse', '[1]'], ['end', n]], [...Array(n).fill(['drop', 0]), ['number', 0], ['end', 0]], [...Array(n).fill(['drop', 0]), ['throw', 'x']]]) {
            if (s.length < n + 1) for (let i = 0; i < n; i++) s.unshift(['use', i]);
            await execute(Array.from({ length: 20 }, (_, i) => ({ name, args: args(name, i % 3, i % 3), script: s[0][0] === 'drop' || n === 0 ? s : [...s.slice(0, -1), ...Array(n).fill(['drop', 0]), ['end', 0]] })), 0, i => i);
        }
    }
}

// ---- the module in front of the functions compiled from js.rs ----
class Native extends Instance {
    called(name, k, a) {
        let i = 0, input = '', own = [];
        for (const c of k) {
            if (c === 'b') { input += 'R' + Buffer.from(this.bytes(a[i], a[i + 1])).toString('hex') + '\n'; i += 2; }
            else { const at = 16, n = this.imports.__wbindgen_json_serialize(a[i], at), p = new Uint32Array(this.buffer)[at / 4]; input += 'J' + Buffer.from(this.bytes(p, n)).toString() + '\n'; this.free(p, n); own.push(a[i]); i++; }
        }
        if (i !== a.length) throw new Wrong(`${name} is called with ${a.length} arguments`);
        for (const h of own) this.imports.__wbindgen_object_drop_ref(h);
        const r = cp.spawnSync(jscall, [name], { input, maxBuffer: 1 << 24 });
        const m = /\nRESULT (.*)\n$/.exec(r.stdout.toString());
        if (!m) throw new Wrong(`${name} gives no result: ${r.stderr.toString().slice(0, 200)}`);
        if (m[1] === '0') return this.imports.__wbindgen_number_new(0);
        const b = Buffer.from(m[1]), p = this.malloc(b.length);
        new Uint8Array(this.buffer).set(b, p);
        const h = this.imports.__wbindgen_json_parse(p, b.length);
        this.free(p, b.length);
        return h;
    }
}
async function protocol() {
    let runs = 0, refused = 0;
    const n1 = Uint8Array.of(1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4), n2 = Uint8Array.from({ length: 26 }, (_, i) => i % 10);
    const seed = k => new Uint8Array(32).fill(k);
    for (const [k, mine] of [n1, n2].entries()) {
        const instance = new Native(k * 5);
        const m = start(instance, k === 0).module;
        await m('x');
        const step = (name, ...a) => { stats.calls++; return m[name](...a); };
        const must = (good, what, r) => { stats.executions++; runs++; if (!good) refused++; if (good ? r === 0 || r === undefined : r !== 0) throw new Wrong(`${what} ${good ? 'fails' : 'succeeds'} in the browser`); if (instance.buffers.size) throw new Wrong(`${what} leaves a buffer behind`); return r; };
        try {
            const sys = must(true, 'system_parameters_create', step('system_parameters_create', seed(1)));
            must(false, 'system_parameters_create with a short seed', step('system_parameters_create', seed(1).subarray(1)));
            const world = s => {
                const key = must(true, 'issuer_create', step('issuer_create', sys, seed(s)));
                const iss = must(true, 'issuer_new', step('issuer_new', sys, key));
                return { iss, par: must(true, 'issuer_get_issuer_parameters', step('issuer_get_issuer_parameters', iss)) };
            };
            const [x, y] = [world(2), world(3)];
            const cred = must(true, 'issuer_issue', step('issuer_issue', x.iss, mine, seed(4)));
            must(false, 'issuer_issue with the number and the seed exchanged', step('issuer_issue', x.iss, seed(4), mine));
            const user = must(true, 'user_obtain_finish', step('user_obtain_finish', mine, sys, x.par, cred));
            must(false, 'user_obtain_finish for another number', step('user_obtain_finish', k ? n1 : n2, sys, x.par, cred));
            must(false, 'user_obtain_finish for another issuer', step('user_obtain_finish', mine, sys, y.par, cred));
            must(false, 'user_obtain_finish with parameters exchanged', step('user_obtain_finish', mine, x.par, sys, cred));
            const entry = JSON.parse(cp.execFileSync(jscall, ['entry', Buffer.from(sys).toString('hex'), Buffer.from(mine).toString('hex')]).toString());
            const strange = JSON.parse(cp.execFileSync(jscall, ['entry', Buffer.from(sys).toString('hex'), Buffer.from(k ? n1 : n2).toString('hex')]).toString());
            const pres = must(true, 'user_show', step('user_show', user, entry, seed(5)));
            must(false, 'user_show without a user', step('user_show', null, entry, seed(5)));
            must(false, 'user_show with the entry as the user', step('user_show', entry, user, seed(5)));
            const ver = must(true, 'issuer_verify', step('issuer_verify', x.iss, pres));
            must(false, 'issuer_verify by another issuer', step('issuer_verify', y.iss, pres));
            must(false, 'issuer_verify with arguments exchanged', step('issuer_verify', pres, x.iss));
            const com = must(true, 'issuer_verify_roster_membership', step('issuer_verify_roster_membership', x.iss, ver));
            if (JSON.stringify(com) !== JSON.stringify(entry.slice(0, 32))) throw new Wrong('another roster entry comes back');
            const other = must(true, 'user_show', step('user_show', user, strange, seed(6)));
            const ver2 = must(true, 'issuer_verify', step('issuer_verify', x.iss, other));
            must(false, 'issuer_verify_roster_membership for somebody else\'s entry', step('issuer_verify_roster_membership', x.iss, ver2));
            must(false, 'issuer_verify_roster_membership with arguments exchanged', step('issuer_verify_roster_membership', ver, x.iss));
        } catch (e) { violation(`the protocol through the module: ${e instanceof Wrong ? e.message : 'fails: ' + (e && e.stack)}`); }
    }
    return `${runs} protocol calls through the module to the functions of js.rs, ${refused} of them to be refused`;
}

// ---- the declarations ----
function declarations() {
    const ts = require('/opt/veriftools/node/node_modules/typescript');
    const lines = ["import * as m from './credential';", 'declare const v: { x: number }[];', 'declare const b: Uint8Array;'];
    for (const [name, k] of kinds) {
        lines.push(`const n_${name}: ${k.length} = null! as Parameters<typeof m.${name}>['length'];`);
        lines.push(`m.${name}(${[...k].map(c => c === 'b' ? 'b' : 'v').join(', ')});`);
        [...k].forEach((c, i) => { if (c === 'b') { lines.push('// @ts-expect-error'); lines.push(`m.${name}(${[...k].map((d, j) => i === j ? 'true' : d === 'b' ? 'b' : 'v').join(', ')});`); } });
    }
    lines.push(`const names: ${[...kinds.keys()].map(n => `'${n}'`).join(' | ')} = null! as keyof typeof m;`);
    const dir = fs.mkdtempSync(path.join(out, 'ts-'));
    fs.copyFileSync('/repo/wasm/src/credential.d.ts', path.join(dir, 'credential.d.ts'));
    fs.writeFileSync(path.join(dir, 'use.ts'), lines.join('\n'));
    const p = ts.createProgram([path.join(dir, 'use.ts')], { noEmit: true, strict: true, target: ts.ScriptTarget.ES2020, types: [] });
    const d = ts.getPreEmitDiagnostics(p);
    for (const x of d) violation(`credential.d.ts: ${ts.flattenDiagnosticMessageText(x.messageText, ' ')}${x.file ? ` (${lines[x.file.getLineAndCharacterOfPosition(x.start).line] || ''})` : ''}`);
    return `${lines.length} lines of TypeScript checked against the declarations`;
}

(async () => {
    const parts = [];
    if (load) {
        await modules();
        parts.push(`${stats.executions} executions of the module over the stand-in instance, ${stats.calls} calls, ${stats.events} events`);
        parts.push(await protocol());
    }
    parts.push(declarations());
    const report = {
        violations: bad, findings: [], parts, samples: ['issuer_create({"a":..}, 32 bytes) doing use 0, parse "[7]", end 1'],
        states: stats.events, transitions: stats.events, executions: stats.executions, evaluations: stats.executions, distinct: seen.size,
        rule: 'every function with every value and kind of byte array in every place, growing memory at every subset of the allocations; every sequence of up to 3 (4) operations of the compiled code within a call, of 2 and 1 (2) in two calls that share what is held, 20 calls in a row; the protocol, honest and with every mix-up, in front of js.rs; distinct: calls, scripts and growth',
    };
    fs.writeFileSync(path.join(out, 'glue.json'), JSON.stringify(report));
})().catch(e => { console.error(e); process.exit(3); });
