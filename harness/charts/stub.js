'use strict'
// Runs the charts script given by VERIF_SCRIPT with stand-ins for the modules it
// depends on and for Google's chart library, which are not here. The stand-ins
// do what the real ones do as far as the data goes: a drawn chart is an SVG
// element that holds the options and the rows of its table as text. The order
// in which asynchronous steps end is drawn from VERIF_SCHED. The use of
// anything the stand-ins do not have is written to VERIF_UNKNOWN.
const fs = require('fs')
const Module = require('module')

let state = BigInt(process.env.VERIF_SCHED || '1')
function rnd (n) { // splitmix64
    state = BigInt.asUintN(64, state + 0x9e3779b97f4a7c15n)
    let z = state
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n)
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn)
    return Number((z ^ (z >> 31n)) % BigInt(n))
}
function later (f) {
    switch (rnd(3)) {
    case 0: setImmediate(f); break
    case 1: setTimeout(f, rnd(4)); break
    default: setTimeout(() => setImmediate(f), 0)
    }
}
function unknown (what) {
    fs.appendFileSync(process.env.VERIF_UNKNOWN, what + '\n')
}
// strict reports the use of properties that a stand-in does not have.
function strict (o, name) {
    return new Proxy(o, {
        get (t, k, r) {
            if (typeof k === 'string' && !(k in t) && k !== 'then' && k !== 'toJSON' && k !== 'default' && k !== '__esModule') {
                unknown(name + '.' + k)
            }
            return Reflect.get(t, k)
        },
        set (t, k, v) { t[k] = v; return true }
    })
}

// ---- a small DOM
const VOID = new Set(['meta', 'link', 'br', 'img', 'input', 'hr', 'area', 'base', 'col', 'source', 'wbr'])
const esc = s => String(s).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;')
const unesc = s => s.replace(/&(lt|gt|quot|amp|#39|nbsp);/g, (_, n) => ({ lt: '<', gt: '>', quot: '"', amp: '&', '#39': "'", nbsp: '\u00a0' })[n])

class Node {
    constructor (doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = [] }
    get firstChild () { return this.childNodes[0] || null }
    get lastChild () { return this.childNodes[this.childNodes.length - 1] || null }
    get parentElement () { return this.parentNode instanceof Element ? this.parentNode : null }
    get nextSibling () { const l = this.parentNode ? this.parentNode.childNodes : []; return l[l.indexOf(this) + 1] || null }
    get children () { return this.childNodes.filter(c => c instanceof Element) }
    get childElementCount () { return this.children.length }
    get firstElementChild () { return this.children[0] || null }
    get lastElementChild () { return this.children[this.children.length - 1] || null }
    hasChildNodes () { return this.childNodes.length > 0 }
    contains (o) { for (; o; o = o.parentNode) if (o === this) return true; return false }
    get textContent () { return this.childNodes.map(c => c.textContent).join('') }
    set textContent (s) { for (const c of this.childNodes.slice()) c.remove(); if (s !== '') this.appendChild(new Text(this.ownerDocument, String(s))) }
    insertBefore (el, ref) {
        if (!(el instanceof Node)) throw new TypeError('not a node')
        if (el instanceof Fragment) { for (const c of el.childNodes.slice()) this.insertBefore(c, ref); return el }
        el.remove()
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length
        if (i < 0) throw new Error('NotFoundError')
        this.childNodes.splice(i, 0, el)
        el.parentNode = this
        return el
    }
    appendChild (el) { return this.insertBefore(el, null) }
    append (...l) { for (const x of l) this.appendChild(x instanceof Node ? x : new Text(this.ownerDocument, String(x))) }
    prepend (...l) { const f = this.firstChild; for (const x of l) this.insertBefore(x instanceof Node ? x : new Text(this.ownerDocument, String(x)), f) }
    replaceChildren (...l) { this.textContent = ''; this.append(...l) }
    removeChild (el) { el.remove(); return el }
    remove () {
        const p = this.parentNode
        if (p) { p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null }
    }
    * walk () { for (const c of this.children) { yield c; yield * c.walk() } }
    getElementsByTagName (n) { n = n.toLowerCase(); return [...this.walk()].filter(e => n === '*' || e.localName === n) }
    getElementsByTagNameNS (_, n) { return this.getElementsByTagName(n) }
    getElementsByClassName (n) { return [...this.walk()].filter(e => e.className.split(/\s+/).includes(n)) }
    querySelectorAll (s) {
        const parts = s.trim().split(/\s+/).map(p => {
            const m = /^([a-zA-Z][\w-]*|\*)?(?:#([\w-]+))?(?:\.([\w-]+))?$/.exec(p)
            if (!m) unknown('selector ' + s)
            return m || []
        })
        const match = (e, m) => (!m[1] || m[1] === '*' || e.localName === m[1].toLowerCase()) && (!m[2] || e.id === m[2]) && (!m[3] || e.className.split(/\s+/).includes(m[3]))
        return [...this.walk()].filter(e => {
            let i = parts.length - 1
            if (!match(e, parts[i])) return false
            for (i--, e = e.parentNode; i >= 0 && e instanceof Element; e = e.parentNode) if (match(e, parts[i])) i--
            return i < 0
        })
    }
    querySelector (s) { return this.querySelectorAll(s)[0] || null }
    get innerHTML () { return this.childNodes.map(c => c.outerHTML).join('') }
    set innerHTML (s) { for (const c of this.childNodes.slice()) c.remove(); parse(s, this, this.ownerDocument) }
    cloneNode (deep) {
        const t = this.ownerDocument.createElement('template')
        t.innerHTML = this.outerHTML
        const c = t.content.firstChild
        c.remove()
        if (!deep) c.textContent = ''
        return c
    }
}
class Text extends Node {
    constructor (doc, s) { super(doc); this.data = s }
    get nodeType () { return 3 }
    get textContent () { return this.data }
    set textContent (s) { this.data = String(s) }
    get nodeValue () { return this.data }
    get outerHTML () { return esc(this.data) }
}
class Fragment extends Node {
    get nodeType () { return 11 }
}
class Element extends Node {
    constructor (doc, n) {
        super(doc)
        this.localName = n.toLowerCase()
        this.attrs = new Map()
        this.style = {}
        if (this.localName === 'template') this.content = new Fragment(doc)
    }
    get nodeType () { return 1 }
    get tagName () { return this.isSVG() ? this.localName : this.localName.toUpperCase() }
    get nodeName () { return this.tagName }
    isSVG () { return ['svg', 'g', 'text', 'rect', 'desc', 'defs'].includes(this.localName) }
    getAttribute (n) { return this.attrs.has(n) ? this.attrs.get(n) : null }
    setAttribute (n, v) { this.attrs.set(n, String(v)) }
    setAttributeNS (_, n, v) { this.attrs.set(n, String(v)) }
    hasAttribute (n) { return this.attrs.has(n) }
    removeAttribute (n) { this.attrs.delete(n) }
    getAttributeNames () { return [...this.attrs.keys()] }
    get attributes () { return [...this.attrs].map(([name, value]) => ({ name, value })) }
    get id () { return this.getAttribute('id') || '' }
    set id (v) { this.setAttribute('id', v) }
    get className () { return this.getAttribute('class') || '' }
    set className (v) { this.setAttribute('class', v) }
    get innerHTML () { return (this.content || this).childNodes.map(c => c.outerHTML).join('') }
    set innerHTML (s) { const t = this.content || this; for (const c of t.childNodes.slice()) c.remove(); parse(s, t, this.ownerDocument) }
    get outerHTML () {
        const a = [...this.attrs].map(([k, v]) => ` ${k}="${esc(v)}"`).join('')
        return `<${this.localName}${a}>` + (VOID.has(this.localName) ? '' : this.innerHTML + `</${this.localName}>`)
    }
    matches (s) { return this.ownerDocument.querySelectorAll(s).includes(this) }
    closest (n) { for (let e = this; e instanceof Element; e = e.parentNode) if (e.localName === n) return e; return null }
    addEventListener () {}
}
for (const p of ['href', 'src', 'type', 'rel', 'charset']) {
    Object.defineProperty(Element.prototype, p, {
        get () { return this.getAttribute(p) || undefined },
        set (v) { this.setAttribute(p, v) }
    })
}
function parse (html, root, doc) {
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/([\w:-]+)\s*>|<([\w:-]+)((?:\s+[\w:.-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>|[^<]+|</gi
    const stack = [root]
    const top = () => { const t = stack[stack.length - 1]; return t.content || t }
    for (let m; (m = re.exec(html));) {
        if (m[1]) {
            for (let i = stack.length - 1; i > 0; i--) if (stack[i].localName === m[1].toLowerCase()) { stack.length = i; break }
        } else if (m[2]) {
            const e = new Element(doc, m[2])
            for (const a of m[3].matchAll(/([\w:.-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) e.setAttribute(a[1], unesc(a[2] ?? a[3] ?? a[4] ?? ''))
            top().appendChild(e)
            if (!VOID.has(e.localName) && !(m[4] && e.isSVG())) stack.push(e)
        } else if (m[0][1] !== '!') {
            top().appendChild(new Text(doc, unesc(m[0])))
        }
    }
}
class Document extends Node {
    constructor (html) {
        super(null)
        this.ownerDocument = this
        this.readyState = 'loading'
        parse(html, this, this)
        let h = this.getElementsByTagName('html')[0]
        if (!h) {
            const l = this.childNodes.slice()
            h = this.createElement('html')
            h.append(this.createElement('head'), this.createElement('body'))
            h.lastChild.append(...l)
            this.appendChild(h)
        }
        for (const n of ['head', 'body']) if (!this.getElementsByTagName(n)[0]) h[n === 'head' ? 'prepend' : 'append'](this.createElement(n))
        this.listeners = new Listeners()
    }
    get nodeType () { return 9 }
    get documentElement () { return this.getElementsByTagName('html')[0] }
    get head () { return this.getElementsByTagName('head')[0] }
    get body () { return this.getElementsByTagName('body')[0] }
    getElementById (id) { for (const e of this.walk()) if (e.id === id) return e; return null }
    createElement (n) { return new Element(this, n) }
    createElementNS (_, n) { return new Element(this, n) }
    createTextNode (s) { return new Text(this, s) }
    createDocumentFragment () { return new Fragment(this) }
    importNode (n, deep) { return n.cloneNode(deep) }
    addEventListener (n, f, o) { this.listeners.add(n, f, o) }
    removeEventListener (n, f) { this.listeners.del(n, f) }
}
class Listeners {
    constructor () { this.l = [] }
    add (n, f, o) { if (!this.l.some(x => x.n === n && x.f === f)) this.l.push({ n, f, once: !!(o && o.once) }) }
    del (n, f) { this.l = this.l.filter(x => x.n !== n || x.f !== f) }
    fire (n, ...a) {
        for (const x of this.l.slice()) {
            if (x.n !== n) continue
            if (x.once) this.l = this.l.filter(y => y !== x)
            if (typeof x.f === 'function') x.f(...a); else x.f.handleEvent(...a)
        }
    }
}

// ---- jsdom
class JSDOM {
    constructor (html, opts) {
        opts = opts || {}
        const doc = new Document(String(html === undefined ? '' : html))
        const win = { document: doc, listeners: new Listeners(), setTimeout, clearTimeout, setImmediate, console, close () {} }
        win.window = win
        win.self = win
        win.addEventListener = (n, f, o) => win.listeners.add(n, f, o)
        win.removeEventListener = (n, f) => win.listeners.del(n, f)
        win.onload = null
        this.window = win
        this.serialize = () => doc.innerHTML
        const scripts = opts.runScripts === 'dangerously' && opts.resources === 'usable'
        later(() => later(() => { // the scripts of the page arrive after the promise of fromFile
            if (scripts && doc.getElementsByTagName('script').some(s => /\/\/www\.gstatic\.com\/charts\/loader\.js$/.test(s.getAttribute('src')))) {
                win.google = strict({ charts: charts(win) }, 'google')
            }
            doc.readyState = 'interactive'
            const e = { type: 'DOMContentLoaded', target: doc }
            doc.listeners.fire('DOMContentLoaded', e)
            win.listeners.fire('DOMContentLoaded', e)
            later(() => {
                doc.readyState = 'complete'
                if (win.onload) win.onload({ type: 'load', target: doc })
                win.listeners.fire('load', { type: 'load', target: doc })
            })
        }))
    }
}
JSDOM.fromFile = (file, opts) => new Promise((resolve, reject) => later(() => {
    fs.readFile(file, 'utf8', (err, html) => {
        if (err) return reject(err)
        resolve(new JSDOM(html, opts))
    })
}))
JSDOM.fragment = html => { const t = new JSDOM('').window.document.createElement('template'); t.innerHTML = html; return t.content }

// ---- Google Charts
function charts (win) {
    let asked = false
    let ready = false
    let waiting = []
    const c = {
        load (version, settings) {
            const pk = (settings && settings.packages) || []
            asked = true
            const doc = win.document
            for (const p of pk) {
                const s = doc.createElement('script')
                s.src = `https://www.gstatic.com/charts/${version}/js/${p}.js`
                doc.head.insertBefore(s, doc.head.firstChild)
            }
            return new Promise(resolve => later(() => {
                win.google.visualization = strict(visualization(win, pk), 'google.visualization')
                ready = true
                for (const f of waiting) f()
                waiting = []
                if (settings && settings.callback) settings.callback()
                resolve()
            }))
        },
        setOnLoadCallback (f) {
            if (!asked && !ready) throw new Error('Must call google.charts.load before google.charts.setOnLoadCallback')
            if (ready) later(f); else waiting.push(f)
        }
    }
    return strict(c, 'google.charts')
}
class DataTable {
    constructor (cols) { this.cols = cols; this.rows = [] }
    getNumberOfRows () { return this.rows.length }
    getNumberOfColumns () { return this.cols.length }
    getColumnLabel (i) { return this.cols[i] }
    getValue (r, c) { return this.rows[r][c] }
    setValue (r, c, v) { this.rows[r][c] = v }
    setCell (r, c, v) { this.rows[r][c] = v }
    addColumn (t, label) { this.cols.push(typeof t === 'object' ? t.label : label); for (const r of this.rows) r.push(null) }
    addRow (r) { this.rows.push((r || this.cols.map(() => null)).map(cell)); return this.rows.length - 1 }
    addRows (l) { if (typeof l === 'number') while (l-- > 0) this.addRow(); else for (const r of l) this.addRow(r); return this.rows.length - 1 }
    removeRow (i) { this.rows.splice(i, 1) }
    removeColumn (i) { this.cols.splice(i, 1); for (const r of this.rows) r.splice(i, 1) }
    clone () { const d = new DataTable(this.cols.slice()); d.rows = this.rows.map(r => r.slice()); return table(d) }
    compare (spec) {
        const l = (Array.isArray(spec) ? spec : [spec]).map(s => typeof s === 'number' ? { column: s } : s)
        return (a, b) => {
            for (const { column, desc, compare } of l) {
                const x = a[column]
                const y = b[column]
                const r = compare ? compare(x, y) : x === null ? (y === null ? 0 : -1) : y === null ? 1 : x < y ? -1 : x > y ? 1 : 0
                if (r) return desc ? -r : r
            }
            return 0
        }
    }
    sort (spec) { this.rows.sort(typeof spec === 'function' ? spec : this.compare(spec)) }
    getSortedRows (spec) { const f = this.compare(spec); return this.rows.map((_, i) => i).sort((i, j) => f(this.rows[i], this.rows[j])) }
}
const cell = v => v !== null && typeof v === 'object' ? ('v' in v ? v.v : null) : v === undefined ? null : v
const table = d => strict(d, 'DataTable')
function arrayToDataTable (data, noHeader) {
    if (!Array.isArray(data) || !Array.isArray(data[0])) throw new Error('Not an array')
    const n = data[0].length
    for (const r of data) if (r.length !== n) throw new Error(`Row given with size different than ${n} (the number of columns in the table).`)
    const d = new DataTable(noHeader ? data[0].map(() => '') : data[0].map(h => h !== null && typeof h === 'object' ? h.label : String(h)))
    for (const r of data.slice(noHeader ? 0 : 1)) d.rows.push(r.map(cell))
    for (let c = 0; c < n; c++) {
        const types = new Set(d.rows.map(r => r[c]).filter(v => v !== null).map(v => typeof v))
        if (types.size > 1) throw new Error(`Type mismatch in column ${c}`)
    }
    return table(d)
}
function visualization (win, packages) {
    const events = {
        addListener (c, n, f) { c.listeners.add(n, f); return { c, n, f } },
        addOneTimeListener (c, n, f) { c.listeners.add(n, f, { once: true }); return { c, n, f } },
        removeListener (h) { h.c.listeners.del(h.n, h.f) },
        removeAllListeners (c) { c.listeners.l = [] },
        trigger (c, n, a) { c.listeners.fire(n, a) }
    }
    class Chart {
        constructor (el) {
            if (!(el instanceof Element)) throw new Error('Container is not defined')
            this.el = el
            this.listeners = new Listeners()
        }
        draw (dt, opts) {
            const text = JSON.stringify({ kind: this.constructor.name, width: opts && opts.width, height: opts && opts.height, cols: dt.cols, rows: dt.rows })
            const go = () => {
                const doc = win.document
                const font = opts && opts.hAxis && opts.hAxis.textStyle && opts.hAxis.textStyle.fontName
                if (font) {
                    const l = doc.createElement('link')
                    l.rel = 'stylesheet'
                    l.href = 'https://fonts.googleapis.com/css?family=' + font
                    doc.head.insertBefore(l, doc.head.firstChild)
                }
                this.el.innerHTML = '<div style="position: relative;"><div dir="ltr"><div aria-label="A chart."><svg width="' + ((opts && opts.width) || 400) + '" height="' + ((opts && opts.height) || 200) +
                    '" aria-label="A chart." style="overflow: hidden;"><defs id="_ABSTRACT_RENDERER_ID_0"></defs><g><text class="table">' + esc(text) + '</text></g></svg></div></div></div>'
                this.listeners.fire('ready')
            }
            if (rnd(2)) go(); else later(go)
        }
        clearChart () { this.el.innerHTML = '' }
        getContainer () { return this.el }
        getImageURI () { return 'data:image/png;base64,AAAA' }
    }
    const v = { arrayToDataTable, events: strict(events, 'events') }
    v.DataTable = class { constructor () { return table(new DataTable([])) } }
    if (packages.includes('corechart')) {
        for (const n of ['ColumnChart', 'BarChart', 'LineChart', 'AreaChart', 'PieChart', 'ComboChart', 'ScatterChart']) v[n] = ({ [n]: class extends Chart {} })[n]
    }
    v.arrayToDataTable = function (data, noHeader) { return arrayToDataTable(data, noHeader) }
    return v
}

// ---- commander, version 3
const camel = s => s.split('-').reduce((a, b) => a + b[0].toUpperCase() + b.slice(1))
class Command {
    constructor () { this.options = []; this.args = []; this.values = {} }
    add (flags, desc, fn, def, required) {
        const m = /^(?:-(\w)[ ,|]+)?--([\w-]+)(?:\s+([<[]).*)?$/.exec(flags)
        if (!m) unknown('option ' + flags)
        if (typeof fn !== 'function') { def = fn; fn = null }
        const o = { short: m[1], long: m[2], value: m[3], fn, key: camel(m[2]), required }
        this.options.push(o)
        if (def !== undefined) this.set(o.key, def)
        return prog
    }
    set (k, v) { this[k] = v; this.values[k] = v }
    option (flags, desc, fn, def) { return this.add(flags, desc, fn, def, false) }
    requiredOption (flags, desc, fn, def) { return this.add(flags, desc, fn, def, true) }
    version () { return prog }
    description () { return prog }
    usage () { return prog }
    name () { return prog }
    allowUnknownOption () { return prog }
    on () { return prog }
    action () { return prog }
    opts () { return Object.assign({}, this.values) }
    parse (argv) {
        const l = argv.slice(2)
        while (l.length) {
            let a = l.shift()
            let v
            if (a === '--') { this.args.push(...l); break }
            const eq = /^(--[\w-]+)=([\s\S]*)$/.exec(a)
            if (eq) { a = eq[1]; v = eq[2] }
            const o = this.options.find(o => a === '--' + o.long || a === '-' + o.short)
            if (!o) {
                if (a[0] === '-') { console.error('error: unknown option ' + a); process.exit(1) }
                this.args.push(a)
                continue
            }
            if (o.value) { if (v === undefined) v = l.shift() } else v = true
            if (v === undefined && o.value === '<') { console.error('error: option argument missing'); process.exit(1) }
            this.set(o.key, o.fn ? o.fn(v, this.values[o.key]) : v)
        }
        for (const o of this.options) if (o.required && this.values[o.key] === undefined) { console.error('error: required option'); process.exit(1) }
        return prog
    }
    parseOptions () { unknown('parseOptions') }
}
const raw = new Command()
const KNOWN = new Set(['input', 'directory', 'names'])
const prog = new Proxy(raw, {
    get (t, k) {
        if (typeof k === 'string' && !(k in t) && !KNOWN.has(k) && !t.options.some(o => o.key === k)) unknown('commander.' + k)
        const v = t[k]
        return typeof v === 'function' && k in Command.prototype ? v.bind(t) : v
    }
})
raw.program = prog
raw.Command = class { constructor () { return prog } }

// ---- the modules
const MODULES = {
    jsdom: strict({ JSDOM }, 'jsdom'),
    commander: prog,
    decamelize: (text, sep) => {
        sep = sep === undefined ? '_' : sep
        return text.replace(/([\p{Ll}\d])(\p{Lu})/gu, '$1' + sep + '$2').replace(/(\p{Lu}+)(\p{Lu}[\p{Ll}\d]+)/gu, '$1' + sep + '$2').toLowerCase()
    },
    svgo: strict({ optimize: svg => ({ data: String(svg), info: {} }), loadConfig: () => ({}), extendDefaultPlugins: l => l }, 'svgo'),
    canvas: {}
}
const load = Module._load
Module._load = function (name, ...a) {
    if (name in MODULES) return MODULES[name]
    if (name[0] !== '.' && name[0] !== '/' && !Module.isBuiltin(name)) unknown('module ' + name)
    return load.call(this, name, ...a)
}
process.argv = [process.argv[0], process.env.VERIF_SCRIPT, ...process.argv.slice(2)]
require(process.env.VERIF_SCRIPT)
