// Monitors of the browser user interface, driven through a small document.
import { execFileSync } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';
import { CSS, Document, Element, Node, Unsupported } from './dom.mjs';

const opt = {};
for (let i = 2; i < process.argv.length; i += 2) {
    opt[process.argv[i].slice(2)] = process.argv[i + 1];
}
const UI = '/repo/ngineer_js';
const ESBUILD = '/opt/veriftools/node/node_modules/.bin/esbuild';

// ------------------------------------------------------------------ machinery

class Rng {
    constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0xd1342543de82ef95n + 1n); this.s = this.word(); }
    word() {
        this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
        let z = this.s;
        z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
        z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
        return z ^ (z >> 31n);
    }
    u() { return Number(this.word() >> 11n) / 2 ** 53; }
    below(n) { return Math.floor(this.u() * n); }
    pick(l) { return l[this.below(l.length)]; }
    chance(p) { return this.u() < p; }
}

const out = { evaluations: 0, cases: 0, distinct: 0, counts: {}, samples: [], harness_errors: [], failures: [] };
const seen = new Set();
const count = (k, n = 1) => { out.counts[k] = (out.counts[k] ?? 0) + n; };
class Stop extends Error {}
function check(ok, sig, detail) {
    out.evaluations++;
    if (!ok) {
        throw Object.assign(new Stop(), { sig, detail: detail() });
    }
}
function attempt(f) {
    try {
        return [f(), null];
    } catch (e) {
        if (e instanceof Unsupported || e instanceof Stop) {
            throw e;
        }
        return [undefined, e ?? new Error('undefined was thrown')];
    }
}
const said = e => `${e?.name}: ${e?.message}`;

/** The user interface as one function of its surroundings. */
function bundle(dir, ext) {
    const entry = ['common', 'tagbuilder', 'debugRibbon', 'leftRibbonMenu', 'panelManager']
        .map(m => `export * from './${m}.js';`).join('\n') + `\nimport './index.js';`;
    const code = execFileSync(ESBUILD, ['--bundle', '--format=iife', '--global-name=UI', '--target=es2022', '--loader=' + ext, '--log-level=error',
        '--sourcefile=entry.' + ext], { input: entry, cwd: dir, encoding: 'utf8' });
    return new Function('document', 'console', 'window', 'HTMLElement', 'Element', 'Node', 'CSS', 'Event', 'CustomEvent', 'MouseEvent', 'alert', 'DOMParser', code + '\nreturn UI;');
}
const builds = [['sources', bundle(path.join(UI, 'src'), 'ts')], ['compiled', bundle(path.join(UI, 'target'), 'js')]];
const PAGE = fs.readFileSync('/repo/index.html', 'utf8');

/** An event that a script makes itself. */
class Happening {
    constructor(type, o) { Object.assign(this, { type, bubbles: false, ...o }); }
}

function start(make) {
    const doc = new Document(PAGE);
    const log = [];
    const note = kind => (...a) => { log.push([kind, a.map(String).join(' ')]); };
    const console = { log: note('log'), info: note('info'), warn: note('warn'), error: note('error'), debug: note('debug') };
    const [ui, e] = attempt(() => make(doc, console, { document: doc, console, CSS, addEventListener: (t, f) => { if (t === 'load') f(); } }, Element, Element, Node, CSS, Happening, Happening, Happening,
        () => {}, class { parseFromString(h) { return new Document(`<html><head></head><body>${h}</body></html>`); } }));
    check(!e, 'start', () => `the page does not start: ${said(e)}`);
    return { doc, ui, log };
}

const EVENTS = ['click', 'mouseover', 'mouseenter', 'mouseleave', 'mouseup', 'mousedown'];

// ------------------------------------------------------------------ J01: tags

/** A history of building, finding, dropping and re-instantiating tags. */
function tags(r, which, make) {
    const { doc, ui } = start(make);
    const page = doc.documentElement.all(e => e.id).map(e => e.id);
    const taken = new Set();
    const roots = ['FILES_TAB', 'MODEL_TAB', 'PROJ_TABS_BAR', 'LEFT_RIBBON', 'PROJ_PANE'];
    for (const n of ['TOP_BAR', 'LEFT_RIBBON_TABS', 'MID_CONTAINER', 'DEBUG_RIBBON', ...roots]) {
        const [el, e] = attempt(() => ui[n].getter());
        check(!e && page.includes(el.id), 'page', () => `${n}: ${said(e)}`);
        taken.add(el.id);
    }
    // What was built and not overwritten: id -> { tag, cls, text, on, parent, kids }
    const live = new Map();
    const tops = ['PROJ_PANE', 'PROJ_TABS_BAR', 'LEFT_RIBBON'].map(n => ({ id: ui[n].getter().id, dyn: ui[n], kids: [], text: null }));
    const gone = [], spare = [], begun = [];
    const fired = [];
    const log = [];
    let made = 0;
    const bury = t => {
        for (const k of t.kids) {
            bury(k);
        }
        t.kids = [];
        live.delete(t.id);
        gone.push(t);
    };
    const steps = 5 + r.below(30);
    for (let s = 0; s < steps; s++) {
        const op = r.below(100);
        const any = live.size ? r.pick([...live.values()]) : null;
        if (op < 45 || !any) {
            const parent = any && r.chance(0.5) ? any : r.pick(tops);
            let id, fresh = r.chance(0.4);
            if (fresh) {
                // Ids may be generated long before they are used
                for (let k = r.pick([0, 1, 1, 1, 2, 3]) + (spare.length ? 0 : 1); k > 0; k--) {
                    const [g, e] = attempt(() => ui.generateUniqueElementId());
                    log.push(`generate ${g}`);
                    check(!e && typeof g === 'string' && g !== '' && !taken.has(g) && !doc.getElementById(g), 'generated', () => `${log}: generated ${g}, which is in use, or failed: ${said(e)}`);
                    taken.add(g);
                    spare.push(g);
                    count('ids generated');
                }
                id = spare.splice(r.below(spare.length), 1)[0];
                if (doc.getElementById(id)) {
                    continue;
                }
            } else {
                id = r.pick(['tab', 'item', 'a', 'x y', 'registered-html-tag-']) + (r.chance(0.3) && gone.length ? '' : made++);
                if (gone.length && r.chance(0.4)) {
                    id = r.pick(gone).id;
                }
                if (doc.getElementById(id)) {
                    continue;
                }
            }
            const append = r.pick([true, true, true, false, undefined]);
            const kinds = ['a', 'b', 'div', 'h1', 'h2', 'h3', 'i', 'span', 'strong'];
            // Builders may be under way side by side
            while (r.chance(0.25)) {
                const b = { kind: r.pick(kinds), on: new Map() };
                const [, e] = attempt(() => {
                    b.builder = new ui.TagBuilder(b.kind);
                    for (const ev of EVENTS.filter(() => r.chance(0.2))) {
                        const token = `${made++}:${ev} begun`;
                        b.on.set(ev, token);
                        b.builder.setTagCallback('on' + ev, () => fired.push(token));
                    }
                });
                check(!e, 'build', () => `${log}: ${said(e)}`);
                begun.push(b);
            }
            const from = begun.length && r.chance(0.5) ? begun.splice(r.below(begun.length), 1)[0] : null;
            if (from) {
                count('builders under way');
            }
            const kind = from ? from.kind : r.pick(kinds);
            const cls = r.pick(['', 'c', 'c d-e']), text = r.pick(['', 'text', 'some more', 'x.nx', '100 %', 'two  blanks', 'a\nb']);
            const t = { id, kind, cls, text, on: new Map(from ? from.on : []), parent, kids: [], serial: made++ };
            log.push(`${append ? 'append' : 'put'} ${kind}#${id} into ${parent.id}`);
            const set = [b => b.setTagId(id), b => cls ? b.setTagClass(cls) : b, b => text ? b.setTagContent(text) : b];
            for (const ev of EVENTS) {
                if (r.chance(0.3)) {
                    const token = `${t.serial}:${ev}`;
                    t.on.set(ev, token);
                    set.splice(r.below(set.length + 1), 0, b => b.setTagCallback('on' + ev, () => fired.push(token)));
                }
            }
            const [dyn, e] = attempt(() => set.reduce((b, f) => f(b), from ? from.builder : new ui.TagBuilder(kind)).buildInto(parent.dyn, append));
            check(!e, 'build', () => `${log}: ${said(e)}`);
            t.dyn = dyn;
            if (!append) {
                for (const k of parent.kids) {
                    bury(k);
                }
                parent.kids = [];
                parent.text = '';
            }
            parent.kids.push(t);
            live.set(id, t);
            taken.add(id);
            for (let i = gone.length - 1; i >= 0; i--) {
                if (gone[i].id === id) {
                    gone.splice(i, 1);
                }
            }
            count('tags built');
        } else if (op < 50) {
            // Something else sets or clears the element's callbacks; its getter wires them up again
            const el = doc.getElementById(any.id);
            log.push(`rewire ${any.id}`);
            for (const ev of any.on.keys()) {
                el['on' + ev] = r.pick([null, () => fired.push('foreign')]);
            }
            const [got, e] = attempt(() => any.dyn.getter());
            check(!e && got === el, 'rewired', () => `${log}: ${any.id}: ${said(e)}`);
            fired.length = 0;
            for (const ev of any.on.keys()) {
                el.dispatchEvent({ type: ev, bubbles: false });
            }
            check(fired.join() === [...any.on.values()].join(), 'rewired', () => `${log}: ran ${fired}, not ${[...any.on.values()]}`);
            count('rewired');
        } else if (op < 60) {
            // Events reach the callbacks that were given, and no others
            const el = doc.getElementById(any.id);
            const ev = r.pick(EVENTS);
            fired.length = 0;
            log.push(`${ev} on ${any.id}`);
            const [, e] = attempt(() => el.dispatchEvent({ type: ev, bubbles: false }));
            const want = any.on.has(ev) ? [any.on.get(ev)] : [];
            check(!e && fired.join() === want.join(), 'callbacks', () => `${log}: ran ${fired}, not ${want}, ${e ? said(e) : ''}`);
            count('events');
            if (want.length) {
                count('callbacks');
            }
        } else if (op < 68) {
            // Something takes the element away
            log.push(`remove ${any.id}`);
            doc.getElementById(any.id).remove();
            any.parent.kids = any.parent.kids.filter(k => k !== any);
            bury(any);
        } else if (op < 76) {
            // The document makes the element anew; its getter wires it up again
            const el = doc.getElementById(any.id);
            log.push(`renew ${any.id}`);
            el.outerHTML = el.outerHTML;
            const wake = t => {
                const [el, e] = attempt(() => t.dyn.getter());
                check(!e && el === doc.getElementById(t.id), 'renewed', () => `${log}: ${t.id}: ${said(e)}`);
                t.kids.forEach(wake);
            };
            wake(any);
            count('renewed');
        } else if (op < 84) {
            const id = r.chance(0.4) && gone.length ? r.pick(gone).id : r.chance(0.5) ? r.pick([...taken]) : 'never' + r.below(9);
            const there = doc.getElementById(id) !== null;
            const known = taken.has(id);
            log.push(`drop ${id}`);
            const [ok, e] = attempt(() => ui.dropTagFromApplication(id));
            check(!e && ok === (known && !there), 'drop', () => `${log}: answered ${ok}, though ${id} is ${known ? '' : 'not '}registered and ${there ? '' : 'not '}there, ${e ? said(e) : ''}`);
            if (ok) {
                taken.delete(id);
                count('dropped');
            } else {
                count('not dropped');
            }
        } else if (op < 92) {
            const id = r.chance(0.5) ? r.pick([...taken]) : 'name' + r.below(20);
            log.push(`register ${id}`);
            const known = taken.has(id);
            const [dyn, e] = attempt(() => ui.registerElementId(id));
            check(known ? !!e : !e, 'register', () => `${log}: ${known ? 'registered twice' : said(e)}`);
            count(known ? 'registered already' : 'registered');
            if (!known) {
                taken.add(id);
                const [el, e] = attempt(() => dyn.getter());
                const there = doc.getElementById(id);
                check(there ? el === there : !!e, 'registered', () => `${log}: ${said(e)}`);
            }
        } else if (gone.length) {
            // What is gone is reported as gone, and its id is free again
            const t = r.pick(gone);
            log.push(`get ${t.id}`);
            const [, e] = attempt(() => t.dyn.getter());
            check(!!e, 'gone', () => `${log}: found ${t.id}, which is gone`);
            taken.delete(t.id);
            count('gone');
        }
        // Everything else is where it was
        const [, shape] = attempt(() => {
            const walk = (t, el) => {
                const kids = el.children;
                check(kids.length === t.kids.length && kids.every((k, i) => k.id === t.kids[i].id), 'children',
                    () => `${log}: ${t.id} contains ${kids.map(k => k.id)}, not ${t.kids.map(k => k.id)}`);
                t.kids.forEach((k, i) => {
                    check(kids[i].localName === k.kind && kids[i].className === k.cls, 'element', () => `${log}: ${kids[i].outerHTML} should be ${k.kind} of class ${k.cls}`);
                    check(kids[i].childNodes.filter(n => n.nodeType === 3).map(n => n.data).join('') === k.text, 'content', () => `${log}: ${kids[i].outerHTML} should say ${k.text}`);
                    walk(k, kids[i]);
                });
            };
            for (const t of tops) {
                walk(t, doc.getElementById(t.id));
            }
        });
        if (shape) {
            throw shape;
        }
    }
    for (const t of live.values()) {
        const [el, e] = attempt(() => t.dyn.getter());
        check(!e && el === doc.getElementById(t.id), 'getter', () => `${log}: ${t.id}: ${said(e)}`);
        for (const ev of EVENTS) {
            fired.length = 0;
            el.dispatchEvent({ type: ev, bubbles: false });
            check(fired.join() === [t.on.get(ev) ?? ''].join(), 'callbacks', () => `${log}: ${ev} on ${t.id} ran ${fired}, not ${t.on.get(ev) ?? 'nothing'}`);
        }
    }
    return log.join('; ');
}

// ------------------------------------------------------------------ J02: files and panels

function panels(r, which, make) {
    const { doc, ui, log: said_ } = start(make);
    const names = ['a.nx', 'b.nx', 'model', 'model.json', 'a', 'long name of a file.nx', 'two  blanks  .nx', 'tab', 'x-tab', 'x', 'b.nx-tab', 'ünïcode.nx', '1'];
    const files = new Map();
    const open = [];
    const log = [];
    let shown = 'files';
    let model = null, colours = null;
    const ribbon = () => doc.getElementById('left-ribbon');
    const press = (el, type) => attempt(() => el.dispatchEvent({ type, bubbles: true }));
    const steps = 5 + r.below(30);
    for (let s = 0; s < steps; s++) {
        const op = r.below(100);
        if (op < 25 && shown === 'files') {
            const free = names.filter(n => !files.has(n));
            if (!free.length) {
                continue;
            }
            const name = r.pick(free);
            log.push(`file ${name}`);
            const [tag, e] = attempt(() => ui.createLeftRibbonMenuFileItem(name));
            check(!e, 'file', () => `${log}: ${said(e)}`);
            files.set(name, tag.getter().id);
            count('files');
        } else if (op < 50 && shown === 'files' && files.size) {
            const name = r.pick([...files.keys()]);
            log.push(`click ${name}`);
            const [, e] = press(doc.getElementById(files.get(name)), 'click');
            check(!e, 'open', () => `${log}: ${said(e)}`);
            if (!open.includes(name)) {
                open.push(name);
                count('opened');
            } else {
                count('opened already');
            }
        } else if (op < 65 && open.length) {
            const name = r.pick(open);
            log.push(`close ${name}`);
            const tab = doc.getElementById('proj-tabs-bar').children[open.indexOf(name)];
            const x = tab.all(e => e.textContent === 'X' && e.children.length === 0).at(-1);
            check(!!x, 'no-close-button', () => `${log}: ${tab.outerHTML}`);
            const [, e] = press(x, 'mousedown');
            check(!e, 'close', () => `${log}: ${said(e)}`);
            if (x.isConnected) {
                press(x, 'mouseup');
                press(x, 'click');
            }
            open.splice(open.indexOf(name), 1);
            count('closed');
        } else if (op < 72 && open.length) {
            const name = r.pick(open);
            log.push(`focus ${name}`);
            said_.length = 0;
            const [, e] = press(doc.getElementById('proj-tabs-bar').children[open.indexOf(name)], 'mouseup');
            check(!e && said_.some(([, m]) => m.includes(name)), 'focus', () => `${log}: ${e ? said(e) : said_}`);
            count('focused');
        } else if (shown === 'model' && op < 84 && r.below(2)) {
            // The modelling tools change, as by somebody who works with them
            const tool = `tool-${s}`;
            const how = r.below(4);
            log.push(`tools ${how}`);
            const html = `<div id='${tool}' class='tool'>tool ${s}</div>`;
            if (how === 0) {
                ribbon().innerHTML += html;
            } else if (how === 1) {
                ribbon().insertAdjacentHTML('beforeend', html + `<span id='${tool}-more'></span>`);
            } else if (how === 2) {
                ribbon().innerHTML = r.pick(['', 'modelling tools are gone', html]);
            } else {
                ribbon().insertAdjacentHTML('beforeend', html);
                const [, e] = attempt(() => new ui.TagBuilder('b').setTagId(tool + '-part').setTagContent('part').buildInto(ui.registerElementId(tool), r.below(2) === 0));
                check(!e, 'tools', () => `${log}: ${said(e)}`);
            }
            model = ribbon().innerHTML;
            count('tools changed');
        } else if (op < 90) {
            const to = r.pick(['files', 'model']);
            log.push(`show ${to}`);
            const before = ribbon().innerHTML;
            const [, e] = press(doc.getElementById(to + '-tab'), 'click');
            check(!e, 'show', () => `${log}: ${said(e)}`);
            const after = ribbon().innerHTML;
            if (to === shown) {
                check(before === after, 'show-again', () => `${log}: ${before} became ${after}`);
                count('shown again');
            } else {
                count('shown');
            }
            if (to === 'model') {
                if (model === null) {
                    model = after;
                    check(after.includes('modelling tools'), 'model-tab', () => `${log}: shows ${after}`);
                }
                check(after === model, 'model-tab', () => `${log}: shows ${after}, showed ${model}`);
            }
            shown = to;
            const colour = k => doc.getElementById(k + '-tab').style.backgroundColor;
            const other = to === 'files' ? 'model' : 'files';
            colours ??= [colour(to), colour(other)];
            check(colours[0] !== colours[1] && colour(to) === colours[0] && colour(other) === colours[1], 'highlight', () => `${log}: ${to} is ${colour(to)}, ${other} is ${colour(other)}`);
            const text = doc.getElementById('debug-ribbon').innerText;
            check(text.includes(to === 'files' ? 'file' : 'model'), 'message', () => `${log}: ${text}`);
        } else {
            const kind = r.pick(['print', 'warn', 'error']);
            const text = r.pick(['done', 'a < b & c', '', '3 of 4', 'is a<b>c here?', '<i>none</i>', 'x &lt; y &amp; z', 'b</span>', 'two  blanks', '"quoted" and \'quoted\'']);
            log.push(`${kind} ${text}`);
            const [, e] = attempt(() => ui.DebugRibbon[kind](text));
            const d = doc.getElementById('debug-ribbon');
            const want = { print: ['#d0d0d0', ''], warn: ['#eeff00', 'WARNING: '], error: ['#ff0000', 'ERROR: '] }[kind];
            check(!e && d.style.color === want[0] && d.innerText === want[1] + text, 'messages', () => `${log}: ${e ? said(e) : ''} ${d.style.color} ${d.innerText}`);
            count('messages');
        }
        // One tab for each open file, in order, and every file where it was
        const tabs = doc.getElementById('proj-tabs-bar').children;
        check(tabs.length === open.length && open.every((n, i) => tabs[i].innerText === n + 'X'), 'tabs',
            () => `${log}: the tabs are ${tabs.map(t => `${t.id} (${t.innerText})`)}, open are ${open}`);
        if (shown === 'files') {
            const items = ribbon().children;
            check(items.length === files.size && [...files].every(([n, id], i) => items[i].id === id && items[i].innerText === n), 'files',
                () => `${log}: the files are ${items.map(t => t.outerHTML)}, not ${[...files.keys()]}`);
        }
        const ids = doc.documentElement.all(e => e.id).map(e => e.id);
        check(new Set(ids).size === ids.length, 'same-id-twice', () => `${log}: ${ids}`);
    }
    return log.join('; ');
}

const PROPS = { J01: tags, J02: panels };
const body = PROPS[opt.property];
const end = Date.now() + 1000 * Number(opt.seconds);
const first = opt.only ? Number(opt.only) : 0;
for (let n = first; n < Number(opt.cases) && Date.now() < end && out.failures.length < 20; n++) {
    for (const [which, make] of builds) {
        const r = new Rng(Number(opt.seed) * 1000003 + n);
        try {
            const what = body(r, which, make);
            seen.add(createHash('sha1').update(what).digest('base64'));
            if (out.samples.length < 4) {
                out.samples.push(`${which}: ${what}`);
            }
        } catch (e) {
            if (e instanceof Stop) {
                out.failures.push({ sig: e.sig, case: n, detail: `${which}: ${e.detail}` });
            } else {
                out.harness_errors.push(`case ${n}: ${e.stack}`);
            }
        }
        count(which);
    }
    out.cases++;
    if (opt.only || out.harness_errors.length > 5) {
        break;
    }
}
out.distinct = seen.size;
fs.writeFileSync(opt.out, JSON.stringify(out));
if (out.harness_errors.length && !out.failures.length) {
    console.log(out.harness_errors[0]);
    process.exit(1);
}
