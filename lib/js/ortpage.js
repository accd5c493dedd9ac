/* Fill in pages with ort-json.ts.  Arguments: compiler module, ort-json.ts, file of jobs.
 * A job has configurations, a page and calls; what becomes of the page is recorded after each. */
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const ts = require(process.argv[2]);
const dom = require(path.join(__dirname, 'dom.js'));
const src = fs.readFileSync(process.argv[3], 'utf8');
const out = ts.transpileModule(src, {compilerOptions: {target: 'es2022', module: 'none'}}).outputText;
const ctx = vm.createContext({});
vm.runInContext(out + '\nthis.ortJson = ortJson;', ctx);
const texts = new Map();
function config(f) {
	if (!texts.has(f))
		texts.set(f, fs.readFileSync(f, 'utf8'));
	return vm.runInContext('JSON.parse', ctx)(texts.get(f));
}
function run(job) {
	const doc = new dom.Document();
	ctx.document = doc;
	const e = dom.make(doc, job.page);
	doc.body.appendChild(e);
	const res = [];
	for (const c of job.calls) {
		const j = config(c.config);
		const before = JSON.stringify(j);
		const log = [];
		const one = kind => (el, o, arg) => {
			const v = [kind, o.parent ?? '-', o.name ?? '-', arg].join('|');
			log.push(v);
			el.setAttribute('data-cb', v);
		};
		let cb, arg;
		if (c.cb !== null) {
			cb = {};
			for (const k of c.kinds)
				cb[k] = one(k);
			arg = c.cb;
		}
		let err = null, after = '';
		try {
			const f = c.prefixes === null ? new ctx.ortJson.ortJsonConfigFormat(j) : new ctx.ortJson.ortJsonConfigFormat(j, c.prefixes);
			const at = c.at.reduce((o, k) => o[k], j.config);
			const root = c.root === null ? e : c.root;
			switch (c.call) {
			case 'fill': f.fill(root, cb, arg); break;
			case 'nothing': f.fill(null, cb, arg); f.fill('no-such-id', cb, arg); f.fillByClass('no-such-id', 'page', cb, arg); break;
			case 'fillByClass': f.fillByClass(root, 'page', cb, arg); break;
			case 'fillRoleSet': f.fillRoleSet(e, c.exclude ?? undefined, cb, arg); break;
			case 'fillFieldSet': f.fillFieldSet(e, at, c.exclude ?? undefined, cb, arg); break;
			case 'fillUpdateObj': f.fillUpdateObj(e, c.kind, at, c.pos, cb, arg); break;
			case 'fillSearchObj': f.fillSearchObj(e, at, c.pos, cb, arg); break;
			case 'fillStrctSet': case 'fillEnumSet': case 'fillBitfSet': f[c.call](e, cb, arg); break;
			default: f[c.call](e, at, cb, arg);
			}
			after = JSON.stringify(j);
		} catch (x) {
			err = String(x.stack ?? x);
		}
		res.push({page: dom.dump(e), log: log, err: err, kept: before === after});
		if (err !== null)
			break;
	}
	return res;
}
const all = JSON.parse(fs.readFileSync(process.argv[4], 'utf8'));
for (const job of all)
	console.log(JSON.stringify(run(job)));
