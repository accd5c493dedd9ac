/* Run generated formatters: compiler module, list of "output<TAB>cases" files.
 * Cases are a JSON array of calls; results go to the cases' name plus ".out". */
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const ts = require(process.argv[2]);
const dom = require(path.join(__dirname, 'dom.js'));

function tostr(x) {
	if (x === null || x === undefined)
		return String(x);
	if (typeof x === 'object' && typeof x.toNumber === 'function' && 'low' in x)
		return (BigInt(x.high >>> 0) << 32n | BigInt(x.low >>> 0)).toString() + (x.unsigned ? 'u' : '');
	return typeof x + ':' + String(x);
}

function run(ort, doc, c) {
	if (c.do === 'long') {
		/* Chains of operations on 64-bit numbers. */
		const L = ort.Long;
		let v = L.fromValue(c.start, c.unsigned);
		const out = [tostr(v)];
		for (const [op, arg, how] of c.ops) {
			if (v === null)
				break;
			const a = arg === null ? undefined : how === 'number' ? Number(arg) : L.fromString(arg, how === 'unsigned');
			const r = v[op](a);
			out.push(tostr(r));
			if (L.isLong(r))
				v = r;
		}
		return out;
	}
	if (c.do === 'static')
		return c.names.map(n => { const v = ort[c.cls][n]; return tostr(v); });
	doc.documentElement.removeAttribute('lang');
	if (c.lang)
		doc.documentElement.lang = c.lang;
	doc.body.replaceChildren();
	const root = dom.make(doc, c.tree);
	doc.body.appendChild(root);
	const at = n => n === null ? null : root.walk(e => e.id === n, [])[0] ?? root;
	const calls = [];
	const custom = {};
	for (const k of c.custom ?? []) {
		const cb = i => (e, name, v) => { calls.push([e.id, name, i, v === undefined ? '_undefined' : v]); };
		custom[k] = k.length % 2 ? [cb(0), cb(1)] : cb(0);
	}
	for (const [k, n] of c.format ?? [])
		custom[k] = ort[n].format;
	const cb = c.custom || c.format ? custom : c.nocb;
	if (c.do === 'format')
		ort[c.cls].format(at(c.e), c.name, c.value);
	else if (c.do === 'fill' || c.do === 'fillInner' || c.do === 'fillArray')
		new ort[c.cls](c.obj)[c.do](at(c.e), cb);
	else if (c.do.endsWith('ByClass'))
		new ort[c.cls](c.obj)[c.do](at(c.e), c.name, cb);
	else
		new ort[c.cls](c.obj)[c.do](at(c.e), at(c.other), cb);
	return {tree: dom.dump(root), calls};
}

for (const l of fs.readFileSync(process.argv[3], 'utf8').split('\n')) {
	if (l === '')
		continue;
	const [src, cases] = l.split('\t');
	let res;
	try {
		const js = ts.transpileModule(fs.readFileSync(src, 'utf8'), {compilerOptions: {target: 'es2021', module: 'none'}}).outputText;
		const doc = new dom.Document();
		const ctx = vm.createContext({document: doc, HTMLElement: dom.HTMLElement, HTMLInputElement: dom.HTMLInputElement,
			HTMLOptionElement: dom.HTMLOptionElement});
		vm.runInContext(js + '\nthis.ort = ort;', ctx, {timeout: 60000});
		res = JSON.parse(fs.readFileSync(cases, 'utf8')).map(c => {
			try {
				return {ok: run(ctx.ort, doc, c)};
			} catch (e) {
				return {bad: String(e)};
			}
		});
	} catch (e) {
		res = String(e);
	}
	fs.writeFileSync(cases + '.out', JSON.stringify(res));
}
