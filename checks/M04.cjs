'use strict';
// M04: what a tool reports for a version was read at that version's revision.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Sym, Lit, U } = A;
const { Server } = require('../lib/mcp.cjs');
const { tools, inputs } = require('../lib/tools.cjs');
const { report } = require('../lib/report.cjs');

const CTX = /(^|\W)VersionContext(\W|$)/;
// requests about the project's history rather than its content
const HISTORY = /vlossom-ui\/vlossom\/(releases|tags)\b/;
const text = (p) => (p.type ? p.type.getText() : '');
// text without a slash or query sign in front of it belongs to the project's addresses
const BASE = /https:\/\/(?:raw\.githubusercontent\.com\/vlossom-ui\/vlossom\/|(?:www\.)?github\.com\/vlossom-ui\/vlossom\/(?:blob|tree|raw)\/)([^/"`]*)/;

class Versions {
    constructor(R) {
        this.R = R;
        this.env = (v) => (v.k === 'sym' && /^global:process\.env/.test(v.key) ? false : undefined);
        this.srv = new Server({ decide: this.env });
        this.I = this.srv.I;
    }
    at(x) {
        return { file: x.mod.rel, line: L.lineOf(x.mod, x.node.getStart(x.mod.sf)) };
    }
    // everything a value is made of, as text
    show(st, v, seen = new Set(), I = this.I) {
        if (!v) return '';
        if (v.k === 'promise') return this.show(st, v.v, seen, I);
        if (v.phi) return v.phi.map((x) => this.show(st, x, seen, I)).join('|');
        if (v.id === undefined) return [keyOf(v), ...['elem', 'spreadOf'].filter((n) => v[n] && v[n].id !== undefined).map((n) => this.show(st, v[n], seen, I))].join(' ');
        if (seen.has(v.id)) return '';
        seen.add(v.id);
        const c = I.getCell(st, v.id);
        if (!c) return keyOf(v);
        const out = [];
        for (const f of ['props', 'entries', 'map']) if (c[f] instanceof Map) for (const [n, x] of c[f]) out.push(`${typeof n === 'object' ? keyOf(n) : n}:${this.show(st, x && x.v && x.k === undefined ? x.v : x, seen, I)}`);
        for (const x of c.elems || []) out.push(this.show(st, x, seen, I));
        for (const x of c.spreads || []) out.push(this.show(st, x.v || x, seen, I));
        return `{${out.join(', ')}}`;
    }
    context(st, n, { resolved, version = `version${n}`, source = 'input' }) {
        const id = (k) => Sym(k, { nonnull: true, ident: k });
        return this.I.mkObj(st, [
            ['source', Lit(source)],
            ['requestedVersion', source === 'packageJson' ? U : id(`asked${n}`)],
            ['packageVersionRange', source === 'packageJson' ? id(`range${n}`) : U],
            ['detectedVersion', version ? id(version) : U],
            ...(resolved ? [['resolvedRef', id(`revision${n}`)]] : []),
            ['warnings', this.I.mkArr(st, [])],
        ]);
    }
    // a call for version n, others opaque but the same in every call
    call(x, st, n, how) {
        this.R.count('calls_followed');
        const args = x.node.parameters.map((p) => (CTX.test(text(p)) ? this.context(st, n, how) : Sym(`arg:${p.name.getText()}`)));
        st.ev = null;
        const outs = this.srv.run(x.fn, args, st);
        this.R.count('paths_followed', outs.length);
        return outs;
    }
    requests(o) {
        return o.s.events().filter((e) => e.t === 'request');
    }
    world(absent) {
        this.srv.answer = (key) => (absent.has(key) ? 'gone' : 'ok');
    }
    // absent addresses that lead to further requests: every such set, smallest first
    worlds(x, how) {
        const out = [];
        const seen = new Set();
        const todo = [new Set()];
        while (todo.length && out.length < 16) {
            const S = todo.shift();
            this.world(S);
            const all = new Set(this.call(x, this.srv.fresh(), 'A', how).flatMap((o) => this.requests(o).map((e) => e.key)));
            const news = [...all].filter((u) => !seen.has(u));
            if (S.size && !news.length) continue;
            news.forEach((u) => seen.add(u));
            out.push(S);
            for (const u of all) if (!S.has(u)) todo.push(new Set([...S, u]));
        }
        return out;
    }
    short(u) {
        return u.replace(/^["`]|["`]$/g, '').replace(/encodeURIComponent\(([^()]*)\)/g, '$1').replace(/^.*vlossom-ui\/vlossom/, '').slice(0, 120);
    }
    readers() {
        const has = (x) => x.node.parameters.some((p) => CTX.test(text(p)));
        const owns = (x) => [...x.reach.state].some((k) => k.startsWith(x.mod.rel + '#'));
        const all = this.srv.functions((x) => x.reach.fetch && (has(x) || !x.node.parameters.length) && !/McpServer/.test(text(x.node)));
        return { versioned: all.filter((x) => has(x) && owns(x)), plain: all.filter((x) => !has(x) && owns(x)) };
    }
    // with a revision given, everything is asked and returned at that revision
    revision(x) {
        for (const S of this.worlds(x, { resolved: true })) {
            this.world(S);
            this.R.count('worlds');
            for (const o of this.call(x, this.srv.fresh(), 'A', { resolved: true })) {
                for (const e of this.requests(o)) {
                    if (HISTORY.test(e.key)) continue;
                    this.R.count('requests_checked');
                    if (!/revisionA/.test(e.key)) this.R.violation({ ...this.where(e, x), key: `${x.name} reads ${this.short(e.key)}`, message: `${x.name} reads ${this.short(e.key)}, which is not the revision it was asked for` });
                }
                if (!o.rejected) this.addresses(x, o, this.show(o.s, o.v), 'revisionA');
            }
        }
    }
    where(e, x) {
        const l = e.node ? this.I.loc(e.node).split(':') : null;
        return l ? { file: l[0], line: Number(l[1]) } : this.at(x);
    }
    // addresses handed out name the revision, not a fixed branch
    addresses(x, o, shown) {
        for (const m of shown.matchAll(new RegExp(BASE, 'g'))) {
            this.R.count('addresses_checked');
            if (m[1] && !m[1].startsWith('$')) this.R.violation({ ...this.at(x), key: `${x.name} address ${m[1]}`, message: `${x.name} hands out an address at "${m[1]}" instead of the revision in use` });
        }
    }
    // shared state a later call can see
    state(st, y) {
        return [...y.reach.state].sort().map((k) => {
            const [rel, name] = k.split('#');
            const mod = this.srv.files.find((m) => m.rel === rel);
            if (!mod) return k;
            const d = this.I.info(mod).decls.get(name);
            return `${k}=${this.show(st, d.const ? this.I.modVar(mod, name) : this.I.getCell(st, this.I.modScope(mod)).vars.get(name))}`;
        }).join(';');
    }
    // nothing of an earlier version in the answer for a later one
    memory(xs) {
        const clean = new Map();
        const done = new Set();
        // what a call for the later version always reads when nothing is remembered
        const always = new Map();
        const reads = (y, later) => {
            const k = `${y.mod.rel}#${y.name}|${JSON.stringify(later)}`;
            if (!always.has(k)) {
                const sets = this.call(y, this.srv.fresh(), 'B', later).filter((q) => !q.rejected).map((q) => new Set(this.requests(q).map((e) => e.key).filter((u) => !HISTORY.test(u))));
                always.set(k, sets.length ? [...sets[0]].filter((u) => sets.every((t) => t.has(u))) : []);
            }
            return always.get(k);
        };
        this.world(new Set());
        for (const [first, later] of [[{ resolved: true }, { resolved: true }], [{}, {}], [{}, { version: '' }], [{ version: '' }, {}]])
            for (const x of xs)
                for (const o of this.call(x, this.srv.fresh(), 'A', first))
                    for (const y of xs) {
                        this.R.count('sequences');
                        const k = this.state(o.s, y);
                        if (!clean.has(y)) clean.set(y, this.state(this.srv.fresh(), y));
                        if (k === clean.get(y)) continue;
                        const id = `${y.name}|${JSON.stringify(later)}|${k}`;
                        if (done.has(id)) continue;
                        done.add(id);
                        this.R.count('distinct_states_followed');
                        for (const q of this.call(y, o.s.clone(), 'B', later)) {
                            const old = [q.v && this.show(q.s, q.v), ...this.requests(q).map((e) => e.key)].find((t) => /(version|revision|asked|range)A/.test(t || ''));
                            if (old) this.R.violation({ ...this.at(y), key: `${y.name} after ${x.name}`, message: `${y.name} answers for one version with what ${x.name} left behind for another (${(old.match(/\w*(?:version|revision|asked|range)A/) || [''])[0]})` });
                            const made = new Set(this.requests(q).map((e) => e.key));
                            const unread = q.rejected ? undefined : reads(y, later).find((u) => !made.has(u));
                            if (unread) this.R.violation({ ...this.at(y), key: `${y.name} unread after ${x.name}`, message: `${y.name} answers for one version without reading ${this.short(unread)} after ${x.name} ran for another` });
                        }
                    }
    }
    // choosing a revision for a version
    resolve(x) {
        for (const [version, source] of [['versionA', 'input'], ['versionA', 'packageJson'], ['', 'input']]) {
            const how = { version, source };
            for (const S of this.worlds(x, how)) {
                this.world(S);
                this.R.count('worlds');
                for (const o of this.call(x, this.srv.fresh(), 'A', how)) {
                    if (o.rejected) continue;
                    this.chosen(x, o, 'A', version, S);
                    // asked again with the same version written differently
                    for (const q of this.call(x, o.s.clone(), 'B', { version: version || '', source: 'packageJson' })) {
                        if (q.rejected) continue;
                        this.chosen(x, q, 'B', version, S);
                        const t = this.show(q.s, q.v);
                        const old = t.match(/\b(asked|range)A\b/);
                        if (old) this.R.violation({ ...this.at(x), key: `${x.name} repeats ${old[1]}`, message: `${x.name} reports what an earlier call asked for (${old[1] === 'asked' ? 'its requested version' : 'its version range'}) in the answer to a later one` });
                    }
                }
            }
        }
    }
    chosen(x, o, n, version, S) {
        this.R.count('choices_checked');
        const get = (k) => {
            const r = o.v && o.v.k === 'obj' ? this.I.getMember(o.s.clone(), o.v, k, null, {}) : [];
            return r.length ? r[0].v : null;
        };
        const ref = get('resolvedRef');
        const bad = (key, message) => this.R.violation({ ...this.at(x), key: `${x.name} ${key}`, message: `${x.name} ${message}` });
        if (!ref || (ref.k === 'lit' && !ref.v)) return bad('no revision', 'settles on a version without saying at which revision it is read');
        const name = ref.k === 'lit' ? ref.v : keyOf(ref).replace(/^`|`$/g, '');
        const absent = [...S].some((u) => u.includes(`/${name}/`) || u.includes(`(${keyOf(ref)})`));
        if (absent) bad('absent revision', `settles on ${name}, which does not exist`);
        if (!version || new RegExp(version).test(name)) return;
        const w = get('warnings');
        const c = w && w.k === 'arr' && this.I.getCell(o.s, w.id);
        const said = c && (c.elems || []).some((e) => this.show(o.s, e).includes(name));
        if (!said) bad(`silent ${name}`, `uses ${name} instead of the requested version without a warning naming it`);
    }
    // tools: every load and every answer belongs to the version asked for
    tools() {
        const srv = new Server({
            decide: (v) => {
                if (this.live && v.k === 'sym' && !v.eq && !v.nullOf) {
                    const is = (n) => new RegExp(`^input\\.(context\\??\\.)?${n}(\\??\\.trim(\\(\\))?)?$`).test(v.key);
                    if (v.key === 'input.context') return true;
                    if (is('version')) return this.live === 'version';
                    if (is('packageJson')) return this.live === 'packageJson';
                }
                return this.env(v);
            },
            mid: 24,
            keep: (e) => e.t === 'load',
            valueKey: (st, v) => (this.live ? this.outline(srv, st, v) : ''),
        });
        const I = srv.I;
        const list = tools(srv);
        srv.opaqueData = ['next_actions', 'url'];
        srv.opaqueParse = true;
        srv.readAddresses = true;
        for (const t of list) {
            this.R.count('tools');
            const only = Object.keys(t.input.shape).filter((n) => t.input.shape[n].type === 'enum').slice(0, 1);
            const takes = (n) => t.input.shape[n] || (t.input.shape.context && t.input.shape.context.shape && t.input.shape.context.shape[n]);
            for (const given of ['version', 'packageJson'].filter(takes))
                for (const i of inputs(t, only)) {
                    this.R.count('tool_inputs');
                    const asked = (s) => new RegExp(`\\binput\\.(context\\??\\.)?${given}\\b`).test(s);
                    const st = srv.fresh();
                    this.live = given;
                    const outs = srv.run(t.handler, [i.make(srv, st)], st);
                    this.live = null;
                    const loads = new Map();
                    for (const o of outs) {
                        this.R.count('tool_paths');
                        for (const e of o.s.events().filter((x) => x.t === 'load')) {
                            const at = e.node.parameters.findIndex((p) => CTX.test(text(p)));
                            if (at < 0) continue;
                            this.R.count('loads_checked');
                            if (!loads.has(e.node)) loads.set(e.node, { e, yes: 0, no: 0 });
                            loads.get(e.node)[asked(e.shown[at] || '') ? 'yes' : 'no']++;
                        }
                        if (o.rejected) continue;
                        this.addresses(t, o, this.show(o.s, o.v, new Set(), I));
                        this.reported(t, i, o, I);
                    }
                    // a package file need not name a usable range, a given version is always used
                    for (const { e, yes, no } of loads.values())
                        if (given === 'version' ? no : !yes) this.R.violation({ file: e.mod.rel, line: L.lineOf(e.mod, e.node.getStart(e.mod.sf)), key: `${t.name} loads ${e.fn} without ${given}`, message: `${t.name} (${i.name}) loads ${e.fn} without the ${given === 'version' ? 'version' : 'package file'} it was given` });
                }
        }
    }
    alternatives(I, st, v, out = []) {
        if (v && v.k === 'obj' && I.getCell(st, v.id)) out.push(v);
        else if (v && v.phi) for (const x of v.phi) this.alternatives(I, st, x, out);
        return out;
    }
    member(I, st, o, name) {
        const r = I.getMember(st.clone(), o, name, null, {});
        return r.length ? r[0].v : null;
    }
    // an answer built from loaded data says which revision it was read at
    reported(t, i, o, I) {
        for (const r of this.alternatives(I, o.s, o.v))
            for (const d of this.alternatives(I, o.s, this.member(I, o.s, r, 'structuredContent'))) {
                const status = this.member(I, o.s, d, 'status');
                if (!status || status.k !== 'lit' || status.v === 'error' || !o.s.events().some((e) => e.t === 'load')) continue;
                this.R.count('answers_checked');
                const v = this.member(I, o.s, d, 'versionContext');
                const s = v ? this.show(o.s, v, new Set(), I) : '';
                const ref = v && v.k === 'obj' ? this.show(o.s, this.member(I, o.s, v, 'resolvedRef'), new Set(), I) : s;
                if (!/\w\(.*\b(input)\b/.test(ref)) this.R.violation({ ...this.at(t), key: `${t.name} ${status.v} without revision`, message: `${t.name} (${i.name}) answers "${status.v}" without the revision it settled on` });
            }
    }
    outline(srv, st, v, d = 0) {
        const I = srv.I;
        if (!v) return '';
        if (v.k === 'promise') return this.outline(srv, st, v.v, d);
        if (v.k === 'lit') return String(v.v).slice(0, 40);
        if (v.k !== 'obj') return v.k === 'sym' && !v.phi ? '?' : v.k;
        const c = I.getCell(st, v.id);
        if (!c || !c.props) return 'obj';
        return `{${['status', 'versionContext', 'structuredContent', 'url'].filter((n) => c.props.has(n)).map((n) => `${n}:${this.outline(srv, st, c.props.get(n), d + 1)}`).join()}}`;
    }
    run() {
        const { versioned, plain } = this.readers();
        this.R.count('version_readers', versioned.length);
        for (const x of versioned) {
            this.R.sample(`${x.mod.rel}: ${x.name}`);
            this.revision(x);
            if (CTX.test(text(x.node))) {
                this.R.count('resolvers');
                this.resolve(x);
            }
        }
        for (const x of plain) {
            this.R.count('unversioned_readers');
            this.world(new Set());
            for (const o of this.call(x, this.srv.fresh(), 'A', {})) for (const e of this.requests(o)) if (!HISTORY.test(e.key)) this.R.violation({ ...this.where(e, x), key: `${x.name} reads ${this.short(e.key)}`, message: `${x.name} reads ${this.short(e.key)} without knowing the version asked for` });
        }
        this.memory(versioned);
        this.tools();
    }
}

function run() {
    const R = report('M04');
    new Versions(R).run();
    R.require('version_readers', 5);
    R.require('resolvers', 1);
    R.require('requests_checked', 10);
    R.require('distinct_states_followed', 10);
    R.require('loads_checked', 10);
    R.require('answers_checked', 4);
    return R.result({
        rule: 'A function given a revision asks for and hands out content at that revision only; after any call for one version, no call for another mentions or returns anything of the first; a resolver settles on an existing revision and names it in a warning when it is not the version\'s own; every load a tool makes carries the version it was asked for and every answer reports the revision settled on.',
        explanation: 'Abstract interpretation of every exported function that reads the repository and keeps shared state, over opaque versions, revisions and responses, also with every candidate address definitely absent; each is followed again for a second version from every distinct module state a first call leaves. Tool handlers are followed with loads opaque.',
        assumptions: ['Requests for releases and tags concern the project\'s history and have no revision.'],
    });
}
module.exports = { run };
