'use strict';
// M02: a failed upstream read is never remembered as an answer.
const L = require('../lib/load.cjs');
const A = require('../lib/absint.cjs');
const { keyOf, Lit } = A;
const { Server, argLists } = require('../lib/mcp.cjs');
const { report } = require('../lib/report.cjs');

const KINDS = { reject: 'no connection', status: 'an error status', body: 'a connection lost while reading' };
const GONE = [404, 410];

class Memory {
    constructor(R) {
        this.R = R;
        this.srv = new Server({
            keep: (e) => (e.t === 'mapset' && this.shared(e.target)) || (e.t === 'assign' && e.modvar) || (e.t === 'set' && this.shared(e.target)),
            decide: (v) => (v.k === 'sym' && /^global:process\.env/.test(v.key) ? false : undefined),
        });
        this.I = this.srv.I;
        this.start = this.srv.fresh();
        this.done = new Set();
    }
    shared(v) {
        return !!v && v.id !== undefined && !!this.I.root.get(v.id);
    }
    // requests of a run, by path
    requests(outs) {
        return outs.map((o) => new Set(o.s.events().filter((e) => e.t === 'request').map((e) => e.key)));
    }
    // answers: some addresses do not exist, one fails, all others succeed
    world(absent, failing, kind) {
        this.srv.answer = (key) => (key === failing ? kind : absent.has(key) ? 'gone' : 'ok');
    }
    call(x, st) {
        st.ev = null;
        this.R.count('calls_followed');
        const outs = this.srv.run(x.fn, x.args.make(this.srv, st), st);
        this.R.count('paths_followed', outs.length);
        return outs;
    }
    // how a call behaves when nothing fails, for a set of absent addresses
    base(x, absent) {
        const k = [...absent].sort().join(' ');
        x.bases = x.bases || new Map();
        if (!x.bases.has(k)) {
            this.world(absent);
            const outs = this.call(x, this.srv.fresh());
            const reqs = this.requests(outs);
            const all = new Set(reqs.flatMap((r) => [...r]));
            x.bases.set(k, { all, always: new Set([...all].filter((u) => reqs.every((r) => r.has(u)))), rejects: outs.some((o) => o.rejected) });
        }
        return x.bases.get(k);
    }
    // sets of absent addresses that lead to further requests
    absences(x) {
        const seen = new Set();
        const out = [];
        const todo = [new Set()];
        while (todo.length && out.length < 24) {
            const S = todo.shift();
            const b = this.base(x, S);
            const news = [...b.all].filter((u) => !seen.has(u));
            if (S.size && !news.length) continue;
            news.forEach((u) => seen.add(u));
            out.push({ S, news });
            if (S.size < 4) for (const u of b.all) if (!S.has(u)) todo.push(new Set([...S, u]));
        }
        return out;
    }
    gone(st, status) {
        const eq = st.facts.get('=' + status.key);
        if (eq !== undefined) return GONE.includes(eq.v);
        return GONE.some((c) => {
            const r = this.I.truth(st.clone(), this.I.strictEq(st, status, Lit(c)));
            return !r.f;
        });
    }
    short(u) {
        const t = u.replace(/^["`]|["`]$/g, '').replace(/encodeURIComponent\(([^()]*)\)/g, '$1');
        const m = t.match(/(vlossom-ui\/vlossom)(.*)$/s);
        return (m ? m[2] : t).replace(/\$\{arg:[^}]*\}/g, '{…}').slice(0, 140);
    }
    // contents of the shared state a function reaches
    left(st, y) {
        const seen = new Map();
        const show = (v) => {
            if (!v || v.id === undefined) return v && v.k === 'promise' ? `promise(${v.rejected ? 'failed ' : ''}${show(v.v)})` : v ? keyOf(v) : '';
            if (seen.has(v.id)) return `#${seen.get(v.id)}`;
            seen.set(v.id, seen.size);
            const c = this.I.getCell(st, v.id);
            if (!c) return `#${v.id}`;
            const parts = [];
            for (const f of ['map', 'props', 'entries'])
                if (c[f] instanceof Map) for (const [n, e] of c[f]) parts.push(`${typeof n === 'object' ? keyOf(n) : n}:${show(e)}`);
            for (const f of ['elems', 'items', 'list']) if (Array.isArray(c[f])) parts.push(...c[f].map(show));
            if (!parts.length || c.unknown) parts.push(`#${v.id}`);
            return `${v.k}{${parts.join(',')}}`;
        };
        return [...y.reach.state].sort().map((k) => {
            const [rel, name] = k.split('#');
            const mod = this.srv.files.find((m) => m.rel === rel);
            if (!mod) return k;
            const inf = this.I.info(mod).decls.get(name);
            if (inf.const) return `${k}=${show(this.I.modVar(mod, name))}`;
            const c = this.I.getCell(st, this.I.modScope(mod));
            return `${k}=${show(c.vars.get(name))}`;
        }).join(';');
    }
    // the store into shared state that follows the failure
    keeper(o, url) {
        const es = o.s.events();
        const i = es.findIndex((e) => e.t === 'request' && e.key === url);
        const w = es.slice(i + 1).filter((e) => e.t !== 'request');
        return w.length ? w[w.length - 1] : null;
    }
    entry(x, others) {
        for (const { S, news } of this.absences(x)) {
            for (const url of news) {
                for (const kind of Object.keys(KINDS)) {
                    this.world(S, url, kind);
                    const outs = this.call(x, this.srv.fresh()).filter((o) => o.s.events().some((e) => e.t === 'request' && e.key === url && e.how === kind));
                    this.R.count('failures_injected');
                    for (const o of outs) {
                        const req = o.s.events().find((e) => e.t === 'request' && e.key === url);
                        if (kind === 'status' && this.gone(o.s, req.status)) {
                            this.R.count('definite_absences');
                            continue;
                        }
                        for (const y of others) this.again(x, y, S, url, kind, o);
                    }
                }
            }
        }
    }
    again(x, y, S, url, kind, o) {
        const b = this.base(y, S);
        if (!b.all.has(url)) return;
        this.R.count('later_calls_checked');
        // what the call left in the shared state the later call can see decides the later call
        const left = this.left(o.s, y);
        const k = `${y.mod.rel}#${y.name}(${y.args.name})|${[...S].sort().join(' ')}|${url}|${left}`;
        if (left === this.left(this.start, y) || this.done.has(k)) return;
        this.done.add(k);
        this.R.count('distinct_states_followed');
        this.world(S);
        const s = o.s.clone();
        const outs = this.call(y, s);
        const reqs = this.requests(outs);
        const asked = reqs.filter((r) => r.has(url)).length;
        const forgets = b.always.has(url) ? asked === reqs.length : asked > 0;
        if (forgets && (b.rejects || !outs.some((z) => z.rejected))) return;
        const w = this.keeper(o, url);
        const at = w && w.node ? this.I.loc(w.node).split(':') : null;
        const fn = w && w.node ? this.owner(w.node) : x.name;
        const what = !forgets ? 'a later call does not ask again' : 'a later call still fails';
        this.R.violation({
            file: at ? at[0] : x.mod.rel,
            line: at ? Number(at[1]) : L.lineOf(x.mod, x.node.getStart(x.mod.sf)),
            key: `${fn}:${this.short(url)}:${what}`,
            message: `${x.name} (${x.args.name || 'any arguments'}): ${KINDS[kind]} on ${this.short(url)} is remembered: ${what} (${y.name})${w ? `, stored in ${w.t === 'assign' ? w.name : this.I.names.get(w.target.id) || 'shared state'} by ${fn}` : ''}`,
        });
    }
    owner(n) {
        for (; n; n = n.parent) if (L.ts.isFunctionDeclaration(n) || L.ts.isMethodDeclaration(n)) return n.name.text;
        return 'module';
    }
    run() {
        const owns = (x) => [...x.reach.state].some((k) => k.startsWith(x.mod.rel + '#') && this.written(k));
        const fns = this.srv.functions((x) => x.reach.fetch && owns(x));
        const entries = fns.flatMap((x) => argLists(x.node).map((args) => ({ ...x, args })));
        this.R.count('remembering_functions', fns.length);
        this.R.count('entries', entries.length);
        for (const x of entries) {
            this.R.sample(`${x.mod.rel}: ${x.name}(${x.args.name})`);
            this.entry(x, entries.filter((y) => y.args.name === x.args.name || !y.args.name || !x.args.name));
        }
        this.R.stats(this.I.stats);
    }
    // shared state some function changes
    written(k) {
        const [rel, name] = k.split('#');
        const mod = this.srv.files.find((m) => m.rel === rel);
        if (!mod) return false;
        let hit = false;
        const visit = (n) => {
            if (hit) return;
            const ts = L.ts;
            if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['set', 'add', 'delete', 'clear', 'push'].includes(n.expression.name.text) && n.expression.expression.getText() === name) hit = true;
            if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment && (n.left.getText() === name || n.left.getText().startsWith(name + '['))) hit = true;
            ts.forEachChild(n, visit);
        };
        visit(mod.sf);
        return hit;
    }
}

function run() {
    const R = report();
    new Memory(R).run();
    R.require('remembering_functions', 5);
    R.require('failures_injected', 50);
    R.require('later_calls_checked', 50);
    return R.result({
        rule: 'For every exported function that reads upstream and keeps shared state, for every address it requests (also after definite absences of earlier candidates) and every way that request can fail short of a definite absence, every later call that would request the address on freshly loaded modules requests it again in the state the failed call leaves behind, and succeeds.',
        explanation: 'Abstract interpretation of the server modules over opaque arguments, response bodies and status codes: requests are recorded with their address expression, each is made to fail in turn, and the same and every other remembering function is followed from the resulting module state. Map writes made after an await are ordered after the caller\'s synchronous ones. A failure status that the path proves to be 404 or 410 counts as a definite absence.',
        assumptions: ['A listing is followed with one entry of unknown name and type.', 'Functions that compute from downloaded text without touching shared state are replaced by an opaque result.', 'A failed connection raises an error with the platform\'s own message.'],
    });
}
module.exports = { run };
