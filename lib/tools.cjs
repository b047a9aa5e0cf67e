'use strict';
// The tools an assistant server offers: names, accepted inputs, promised outputs and handlers, read off its registration code.
const L = require('./load.cjs');
const A = require('./absint.cjs');
const { Sym, Lit, U, keyOf } = A;

const one = (s, v) => [{ s, v }];
// a schema as a tree: {type, values?, shape?, elem?, optional, dflt?}
function schema(I, st, v) {
    if (v && v.k === 'obj') {
        const shape = {};
        for (const [n, x] of I.getCell(st, v.id).props) shape[n] = schema(I, st, x);
        return { type: 'object', shape, optional: false };
    }
    if (!v || !v.call) return { type: 'unknown', optional: true };
    const { name, recv, args } = v.call;
    const own = recv && recv.call ? schema(I, st, recv) : null;
    if (own) {
        if (name === 'optional' || name === 'nullish') return { ...own, optional: true };
        if (name === 'default') return { ...own, optional: true, dflt: args[0] };
        return own;
    }
    const lits = (a) => (a && a.k === 'arr' ? I.elements(st, a).map((e) => e.v) : []);
    if (name === 'enum') return { type: 'enum', values: lits(args[0]), optional: false };
    if (name === 'literal') return { type: 'enum', values: [args[0].v], optional: false };
    if (name === 'array') return { type: 'array', elem: schema(I, st, args[0]), optional: false };
    if (name === 'object') return { ...schema(I, st, args[0]), optional: false };
    if (name === 'unknown' || name === 'any') return { type: 'unknown', optional: true };
    return { type: name, optional: false };
}
// every tool registered by a function that is given the server: [{name, input, output, handler, mod, node}]
function tools(srv) {
    const I = srv.I;
    const found = new Map();
    for (const x of srv.functions((f) => /\bMcpServer\b/.test((f.node.parameters[0] && f.node.parameters[0].type && f.node.parameters[0].type.getText()) || '') && f.node.parameters.length === 1)) {
        const st = srv.fresh();
        const server = Sym('server', { nonnull: true, server: true });
        srv.calls = [];
        srv.run(x.fn, [server], st);
        for (const c of srv.calls) {
            const name = c.args[0];
            const handler = [...c.args].reverse().find((a) => a && (a.k === 'fn' || a.k === 'native'));
            if (!name || name.k !== 'lit' || !handler) continue;
            const cfg = c.args.length === 3 && c.args[1].k === 'obj' ? I.getCell(c.s, c.args[1].id).props : null;
            if (!cfg || !cfg.get('inputSchema') || found.has(name.v)) continue;
            found.set(name.v, {
                name: name.v,
                handler,
                mod: handler.mod,
                node: handler.node,
                st: c.s,
                input: schema(I, c.s, cfg.get('inputSchema')),
                output: cfg.get('outputSchema') ? schema(I, c.s, cfg.get('outputSchema')) : null,
            });
        }
        srv.calls = null;
    }
    return [...found.values()];
}
// inputs of a tool: one per combination of the choices it must be told, everything else opaque: [{name, make(srv, st)}]
function inputs(t, only) {
    let out = [{ name: '', picks: {} }];
    for (const [n, f] of Object.entries(t.input.shape)) {
        if (f.type !== 'enum' || (f.optional && !f.dflt) || (only && !only.includes(n))) continue;
        out = out.flatMap((o) => f.values.map((v) => ({ name: [o.name, `${n} ${v}`].filter(Boolean).join(', '), picks: { ...o.picks, [n]: v } })));
    }
    return out.map((o) => ({
        ...o,
        make: (srv, st, over = {}, prefix = 'input') => srv.I.mkObj(st, Object.entries(t.input.shape).map(([n, f]) => [n, n in over ? over[n] : n in o.picks ? Lit(o.picks[n]) : field(srv, st, `${prefix}.${n}`, f)])),
    }));
}
function field(srv, st, name, f) {
    if (f.type === 'object' && !f.optional) return srv.I.mkObj(st, Object.entries(f.shape).map(([n, x]) => [n, field(srv, st, `${name}.${n}`, x)]));
    return Sym(name, { nonnull: !f.optional, isBool: f.type === 'boolean' && !f.optional, input: true });
}
module.exports = { inputs, tools, schema };
