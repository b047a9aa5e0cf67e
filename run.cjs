#!/usr/bin/env node
'use strict';
// run.cjs <property>: runs one check, writes its evidence and reports violations.
const fs = require('fs');
const path = require('path');
const { performance } = require('perf_hooks');
const id = process.argv[2];
const tier = process.argv.includes('--thorough') || process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const dir = __dirname;
const evDir = path.join(dir, 'evidence');
fs.mkdirSync(evDir, { recursive: true });

// known findings: `known: property=<id> key=<key> -- <description>`; `fixed:` lines suppress nothing
function knownFindings(prop) {
    const file = path.join(dir, 'known-findings.txt');
    const out = new Map();
    if (!fs.existsSync(file)) return out;
    for (const line of fs.readFileSync(file, 'utf8').split('\n')) {
        const m = /^known: property=(\S+) key=(.+?) -- (.*)$/.exec(line);
        if (m && m[1] === prop) out.set(m[2], m[3]);
    }
    return out;
}

async function main() {
    const t0 = performance.now();
    const check = require(path.join(dir, 'checks', id + '.cjs'));
    const res = await check.run({ tier, seed });
    const known = knownFindings(id);
    const seen = new Set();
    const fresh = [];
    const listed = [];
    for (const v of res.violations) {
        if (seen.has(v.key)) continue;
        seen.add(v.key);
        if (known.has(v.key)) listed.push(v);
        else fresh.push(v);
    }
    const ev = {
        property: id,
        tier,
        seed,
        level: res.level || 'other',
        coverage: { explanation: res.explanation, rule: res.rule, ...res.coverage },
        assumptions: res.assumptions || [],
        wall_s: Math.round((performance.now() - t0) / 10) / 100,
        violations: fresh.length,
    };
    if (listed.length) ev.coverage.known_findings = listed.map((v) => v.key);
    fs.writeFileSync(path.join(evDir, id + '.json'), JSON.stringify(ev, null, 1) + '\n');
    for (const v of listed) console.log(`KNOWN-FINDING: property=${id} ${v.key} -- ${known.get(v.key)}`);
    const replay = path.join(evDir, id + '.replay.json');
    if (fresh.length) {
        fs.writeFileSync(replay, JSON.stringify({ property: id, violations: fresh }, null, 1) + '\n');
        for (const v of fresh) console.log(`${v.file}:${v.line || '?'}: ${v.message}  [${v.key}]`);
        console.log(`VIOLATION property=${id} replay=${replay}`);
        process.exit(1);
    }
    if (fs.existsSync(replay)) fs.unlinkSync(replay);
    console.log(`${id}: held (${ev.wall_s}s)`);
    process.exit(0);
}
main().catch((e) => {
    console.error(`check error in ${id}: ${e && e.stack ? e.stack : e}`);
    process.exit(2);
});
