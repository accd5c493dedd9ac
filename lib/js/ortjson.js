/* Convert outputs of ort-json(1) back into ort(5) by way of ort-json.ts.
 * Arguments: compiler module, ort-json.ts, list of input files. */
const fs = require('fs');
const vm = require('vm');
const ts = require(process.argv[2]);
const src = fs.readFileSync(process.argv[3], 'utf8');
const out = ts.transpileModule(src, {compilerOptions: {target: 'es2022', module: 'none'}}).outputText;
const ctx = vm.createContext({});
vm.runInContext(out + '\nthis.ortJson = ortJson;', ctx);
for (const f of fs.readFileSync(process.argv[4], 'utf8').split('\n')) {
	if (f === '')
		continue;
	let r;
	try {
		r = 'ok\n' + new ctx.ortJson.ortJsonConfigFormat(JSON.parse(fs.readFileSync(f, 'utf8'))).toString();
	} catch (e) {
		r = 'bad\n' + e;
	}
	fs.writeFileSync(f + '.back', r);
}
