// Monitors of the server of the user interface, over the loopback network.
import { fork } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import http from 'node:http';
import path from 'node:path';
import { createRequire } from 'node:module';

const opt = {};
for (let i = 2; i < process.argv.length; i += 2) {
    opt[process.argv[i].slice(2)] = process.argv[i + 1];
}
const HERE = path.dirname(new URL(import.meta.url).pathname);
const REPO = '/repo';
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');

class Rng {
    constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0xd1342543de82ef95n + 1n); this.s = this.word(); }
    word() {
        this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
        let z = this.s;
        z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
        z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
        return z ^ (z >> 31n);
    }
    u() { return Number(this.word() >> 11n) / 2 ** 53; }
    below(n) { return Math.floor(this.u() * n); }
    pick(l) { return l[this.below(l.length)]; }
    chance(p) { return this.u() < p; }
}

const out = { evaluations: 0, cases: 0, distinct: 0, counts: {}, samples: [], harness_errors: [], failures: [] };
const seen = new Set();
const count = (k, n = 1) => { out.counts[k] = (out.counts[k] ?? 0) + n; };
class Stop extends Error {}
function check(ok, sig, detail) {
    out.evaluations++;
    if (!ok) {
        throw Object.assign(new Stop(), { sig, detail: detail() });
    }
}

// What the server is there to serve, without what was only built
const SKIP = new Set(['target', '.git', 'node_modules', 'gmatlib', 'geqslib', 'nexsys', 'neapolitan']);
function copy(to) {
    for (const e of fs.readdirSync(REPO)) {
        if (!SKIP.has(e)) {
            fs.cpSync(path.join(REPO, e), path.join(to, e), { recursive: true });
        }
    }
}
function files(dir, at = '') {
    return fs.readdirSync(path.join(dir, at), { withFileTypes: true }).flatMap(e => e.name.startsWith('.') ? []
        : e.isDirectory() ? files(dir, at + e.name + '/') : [at + e.name]);
}

/** Paths that are nearly those of files, without being so. */
function near(there, r) {
    const taken = new Set(there.flatMap(f => f.split('/').map((_, i, all) => all.slice(0, i + 1).join('/'))));
    return Array.from({ length: 12 }, () => {
        const f = r.pick(there);
        const at = f.lastIndexOf('/') + 1;
        switch (r.below(6)) {
        case 0: case 1: return f.replace(/\.[^./]*$/, '');
        case 2: return f.slice(0, at) + f.slice(at).toUpperCase();
        case 3: return f + r.pick(['x', '.js', '.gz', '~']);
        case 4: return f.slice(at);
        default: return f.slice(0, -1);
        }
    }).filter(f => f && !taken.has(f)).map(f => f.split('/').map(encodeURIComponent).join('/'));
}

function serve(dir) {
    const child = fork(path.join(dir, 'server.js'), [], { cwd: dir, silent: true, execArgv: ['--require', path.join(HERE, 'stub', 'port.cjs')],
        env: { ...process.env, NODE_PATH: path.join(HERE, 'stub', 'node_modules') } });
    const s = { child, said: '', ended: null };
    child.stdout.on('data', d => { s.said += d; });
    child.stderr.on('data', d => { s.said += d; });
    const started = new Promise(done => {
        child.on('message', m => { s.port = m.port; s.asked = m.asked; done(); });
        child.on('exit', (code, signal) => { s.ended = signal ?? code; done(); });
        setTimeout(done, 20_000).unref();
    });
    return started.then(() => s);
}

function ask(s, target, method = 'GET') {
    return new Promise(done => {
        const req = http.request({ host: '127.0.0.1', port: s.port, path: target, method, agent: false, timeout: 20_000 }, res => {
            const parts = [];
            res.on('data', d => parts.push(d));
            res.on('end', () => done({ status: res.statusCode, type: String(res.headers['content-type'] ?? ''), location: res.headers.location, body: Buffer.concat(parts) }));
            res.on('error', e => done({ status: 0, type: '', body: Buffer.from(String(e)) }));
        });
        req.on('timeout', () => req.destroy(new Error('no answer in time')));
        req.on('error', e => done({ status: 0, type: '', body: Buffer.from(String(e)) }));
        req.end();
    });
}
const shown = a => `${a.status} ${a.type} ${JSON.stringify(a.body.toString('latin1').slice(0, 120))}`;

/** What a page, a script or a style sheet makes the browser load. */
function refers(type, text) {
    const found = [];
    if (type.includes('html')) {
        for (const m of text.replace(/<!--[^]*?-->/g, '').matchAll(/<(script|link|img)\b[^>]*?\b(?:src|href)\s*=\s*["']([^"']*)["']/gi)) {
            found.push([m[2], { script: 'javascript', link: /rel\s*=\s*["']stylesheet/.test(m[0]) ? 'css' : '', img: '' }[m[1].toLowerCase()]]);
        }
    } else if (type.includes('javascript')) {
        for (const m of ts.preProcessFile(text, true, true).importedFiles) {
            found.push([m.fileName, 'javascript']);
        }
    } else if (type.includes('css')) {
        for (const m of text.replace(/\/\*[^]*?\*\//g, '').matchAll(/@import\s+["']([^"']+)["']|url\(\s*["']?([^"')]+)["']?\s*\)/g)) {
            found.push([m[1] ?? m[2], '']);
        }
    }
    return found.filter(([u]) => !/^(data|https?):/i.test(u));
}

async function page(r, scratch) {
    const dir = fs.mkdtempSync(path.join(scratch, 'site-'));
    let s;
    try {
        copy(dir);
        const index = path.join(dir, 'index.html');
        let made = 0;
        const log = [];
        s = await serve(dir);
        check(s.port !== undefined && s.ended === null, 'start', () => `the server does not start: ${s.said.slice(-800)}`);

        const crawl = async () => {
            const root = await ask(s, '/');
            check(root.status === 200 && root.type.includes('text/html') && root.body.equals(fs.readFileSync(index)), 'page',
                () => `${log}: / is answered with ${shown(root)}`);
            const known = new Set();
            const todo = refers('html', root.body.toString()).map(([u, t]) => [new URL(u, 'http://x/').pathname, t, '/']);
            let scripts = 0;
            while (todo.length) {
                const [p, want, by] = todo.splice(r.below(todo.length), 1)[0];
                if (known.has(p)) {
                    continue;
                }
                known.add(p);
                const a = await ask(s, p);
                const file = path.join(dir, decodeURIComponent(p));
                check(a.status === 200, 'missing', () => `${log}: ${p}, which ${by} refers to, is answered with ${shown(a)}`);
                check(a.body.equals(fs.readFileSync(file)), 'contents', () => `${log}: ${p} differs from the file: ${shown(a)}`);
                check(a.type.includes(want), 'type', () => `${log}: ${p} is served as ${a.type}`);
                scripts += want === 'javascript';
                count('resources');
                for (const [u, t] of refers(a.type, a.body.toString())) {
                    // The browser resolves relative names only
                    check(t !== 'javascript' || /^(\.{0,2}\/)/.test(u), 'bare-import', () => `${p} imports ${u}`);
                    todo.push([new URL(u, 'http://x' + p).pathname, t, p]);
                }
            }
            check(scripts > 0, 'no-scripts', () => 'the page loads no script');
            count('pages');
        };

        await crawl();
        const steps = 6 + r.below(25);
        for (let i = 0; i < steps; i++) {
            const there = files(dir);
            switch (r.below(8)) {
            case 0: case 1: case 2: { // a file that is there
                const f = r.pick(there);
                const target = '/' + f.split('/').map(encodeURIComponent).join('/') + r.pick(['', '', '?v=2', '?a=/../b']);
                log.push(target);
                const a = await ask(s, target);
                check(a.status === 200 && a.body.equals(fs.readFileSync(path.join(dir, f))), 'file', () => `${log}: answered with ${shown(a)}`);
                count('files');
                break;
            }
            case 3: { // a file that is not
                const f = r.pick(['nothing.js', 'ngineer_js/target/none.js', 'ngineer_js/none/index.js', 'target/index.html/x', 'index.htm', 'ngineer_js/src/common.tsx', 'x'.repeat(1 + r.below(500)), '%E4%BD%A0.js',
                    'a%20b', 'ngineer_js/target/index.js.map', 'favicon.ico', '..%2f..%2fnowhere', 'ngineer_js/target/' + r.below(1000), ...near(there, r)]);
                log.push('/' + f);
                const a = await ask(s, '/' + f);
                check(a.status >= 400 && a.status < 500, 'not-there', () => `${log}: answered with ${shown(a)}`);
                count('refused');
                break;
            }
            case 4: { // many at once
                const list = Array.from({ length: 2 + r.below(12) }, () => r.pick(there));
                log.push(`${list.length} at once`);
                const all = await Promise.all(list.map(f => ask(s, '/' + f.split('/').map(encodeURIComponent).join('/'))));
                all.forEach((a, n) => check(a.status === 200 && a.body.equals(fs.readFileSync(path.join(dir, list[n]))), 'at-once', () => `${log}: ${list[n]} is answered with ${shown(a)}`));
                count('at once', list.length);
                break;
            }
            case 5: { // the page changes while it is served
                const text = fs.readFileSync(index, 'utf8').replace(/<title>[^<]*/, `<title>Ngineer ${++made} ä€`);
                fs.writeFileSync(index, text);
                log.push('new page');
                await crawl();
                count('new pages');
                break;
            }
            case 6: { // a project file of the user's
                const f = r.pick(['', 'ngineer_js/', 'ngineer_js/target/', 'ngineer_js/assets/', 'models/', 'ngineer_js/mine/inner/']) + `${r.pick(['part', 'part', '100% + ä#', 'a?b=c&d'])} ${++made}.` + r.pick(['js', 'json', 'nxs', 'css', 'html', 'txt']);
                fs.mkdirSync(path.dirname(path.join(dir, f)), { recursive: true });
                fs.writeFileSync(path.join(dir, f), 'x'.repeat(r.below(3) * 40_000) + made);
                log.push('new ' + f);
                const a = await ask(s, '/' + f.split('/').map(encodeURIComponent).join('/'));
                check(a.status === 200 && a.body.equals(fs.readFileSync(path.join(dir, f))), 'new-file', () => `${log}: answered with ${shown(a)}`);
                count('new files');
                break;
            }
            default: { // no request that the page makes
                const before = there.map(f => [f, createHash('sha1').update(fs.readFileSync(path.join(dir, f))).digest('hex')]);
                const [m, t] = r.pick([['POST', '/'], ['DELETE', '/index.html'], ['PUT', '/index.html'], ['HEAD', '/'], ['GET', '/%'], ['GET', '/%00'], ['GET', '//'], ['GET', '/../server.js'], ['OPTIONS', '*'], ['GET', '/ngineer_js'], ['GET', '/' + 'a/'.repeat(200)]]);
                log.push(m + ' ' + t.slice(0, 30));
                const a = await ask(s, t, m);
                check(a.status < 500 || a.status === 501, 'failed', () => `${log}: answered with ${shown(a)}`);
                check(before.every(([f, h]) => fs.existsSync(path.join(dir, f)) && createHash('sha1').update(fs.readFileSync(path.join(dir, f))).digest('hex') === h), 'changed', () => `${log}: files have changed`);
                count('other requests');
            }
            }
            check(s.ended === null, 'ended', () => `${log}: the server has ended with ${s.ended}: ${s.said.slice(-800)}`);
        }
        await crawl();
        return log.join('; ');
    } finally {
        s?.child.kill('SIGKILL');
        fs.rmSync(dir, { recursive: true, force: true });
    }
}

const PROPS = { J03: page };
const body = PROPS[opt.property];
const end = Date.now() + 1000 * Number(opt.seconds);
const first = opt.only ? Number(opt.only) : 0;
async function one(n) {
    const r = new Rng(Number(opt.seed) * 1000003 + n);
    try {
        const what = await body(r, opt.scratch);
        seen.add(createHash('sha1').update(what).digest('base64'));
        if (out.samples.length < 4) {
            out.samples.push(what);
        }
    } catch (e) {
        if (e instanceof Stop) {
            out.failures.push({ sig: e.sig, case: n, detail: e.detail });
        } else {
            out.harness_errors.push(`case ${n}: ${e.stack}`);
        }
    }
    out.cases++;
}
let next = first;
async function worker() {
    while (next < (opt.only ? first + 1 : Number(opt.cases)) && Date.now() < end && out.failures.length < 20 && out.harness_errors.length < 5) {
        await one(next++);
    }
}
await Promise.all(Array.from({ length: 6 }, worker));
out.failures.sort((a, b) => a.case - b.case);
out.distinct = seen.size;
fs.writeFileSync(opt.out, JSON.stringify(out));
if (out.harness_errors.length && !out.failures.length) {
    console.log(out.harness_errors[0]);
    process.exit(1);
}
process.exit(0);
