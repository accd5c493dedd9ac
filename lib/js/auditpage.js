/* Open the audit page and follow its links.  Arguments: audit.js, page as JSON, file of jobs.
 * A job names a file of the audit as JavaScript, or one without an audit; what the page shows is recorded. */
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const dom = require(path.join(__dirname, 'dom.js'));
const src = fs.readFileSync(process.argv[2], 'utf8');
const page = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));

/* Radio buttons: of those with a name, at most one is checked. */
class Radio extends dom.HTMLInputElement {
	constructor(t) { super(t); this.on = false; this.dirty = false; }
	get top() { let n = this; while (n.parentNode !== null) n = n.parentNode; return n; }
	put(v) {
		this.on = v;
		if (v && this.getAttribute('type') === 'radio' && this.getAttribute('name'))
			for (const e of this.top.walk(e => e instanceof Radio && e !== this && e.getAttribute('name') === this.getAttribute('name'), []))
				e.on = false;
	}
	get checked() { return this.on; }
	set checked(v) { this.dirty = true; this.put(Boolean(v)); }
	setAttribute(n, v) {
		super.setAttribute(n, v);
		if (n === 'checked' && !this.dirty)
			this.put(true);
	}
	removeAttribute(n) {
		if (n === 'checked' && this.hasAttribute(n) && !this.dirty)
			this.on = false;
		super.removeAttribute(n);
	}
	cloneNode(deep) {
		const e = super.cloneNode(deep);
		e.on = this.on;
		e.dirty = this.dirty;
		return e;
	}
}

class Page extends dom.Document {
	createElement(t) { return t === 'input' ? new Radio(t) : super.createElement(t); }
	getElementsByClassName(c) { return this.documentElement.getElementsByClassName(c); }
	getElementsByTagName(c) { return this.documentElement.getElementsByTagName(c); }
}

function hidden(e) {
	for (; e !== null; e = e.parentNode)
		if (e.classList.contains('hide'))
			return true;
	return false;
}

/* What's visible: [tag, attributes, children, identifier if it does something when clicked]. */
function shown(n, ids) {
	if (n instanceof dom.Text)
		return n.data;
	if (n.classList.contains('hide'))
		return null;
	const a = Object.fromEntries(n.attrs);
	if (n instanceof Radio)
		a[':checked'] = String(n.checked);
	return [n.localName, a, n.childNodes.map(c => shown(c, ids)).filter(c => c !== null), ids.has(n) ? ids.get(n) : null];
}

function run(job) {
	const doc = new Page();
	doc.documentElement = dom.make(doc, page);
	doc.body = doc.documentElement.walk(e => e.localName === 'body', [])[0];
	const load = [];
	const ctx = vm.createContext({document: doc, console: {log: s => res.log.push(String(s))}});
	const res = {log: [], err: null, page: null, clicks: {}, close: null, ranks: []};
	ctx.window = {addEventListener: (t, f) => { if (t === 'load') load.push(f); }};
	try {
		vm.runInContext(fs.readFileSync(job.audit, 'utf8'), ctx);
		const a = ctx.audit;
		if (typeof a === 'object' && a !== null) {
			const names = new Set();
			for (const s of a.access) {
				names.add(s.name);
				for (const f of s.access.data ?? [])
					names.add(f);
			}
			for (const f of Object.keys(a.functions))
				names.add(f);
			res.ranks = [...names].sort((x, y) => x.localeCompare(y));
		}
		vm.runInContext(src, ctx);
		load.forEach(f => f());
		const ids = new Map();
		const can = doc.documentElement.walk(e => typeof e.onclick === 'function', []);
		can.forEach((e, i) => ids.set(e, i));
		res.page = shown(doc.documentElement, ids);
		const aside = doc.getElementById('kwbp-aside');
		let order = can.filter(e => !hidden(e));
		for (let i = order.length - 1, x = job.seed; i > 0; i--) {
			x = (x * 1103515245 + 12345) % 2147483648;
			const j = x % (i + 1);
			[order[i], order[j]] = [order[j], order[i]];
		}
		order = order.slice(0, job.clicks);
		for (const e of order) {
			e.onclick();
			res.clicks[ids.get(e)] = shown(aside, new Map());
			if (job.seed % 2 === 0) {
				doc.getElementById('kwbp-aside-close').onclick();
				res.close = !hidden(aside) || res.close;
			}
		}
	} catch (x) {
		res.err = String(x.stack ?? x);
	}
	return res;
}
for (const job of JSON.parse(fs.readFileSync(process.argv[4], 'utf8')))
	console.log(JSON.stringify(run(job)));
