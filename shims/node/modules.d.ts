declare module 'bcrypt' {
	const b: {
		hashSync(data: string | Buffer, saltOrRounds: string | number): string;
		compareSync(data: string | Buffer, encrypted: string): boolean;
	};
	export default b;
}
declare module 'validator' {
	const v: {
		isDecimal(str: string, options?: { locale?: string; decimal_digits?: string; force_decimal?: boolean }): boolean;
		isDate(str: string, options?: { format?: string; delimiters?: string[]; strictMode?: boolean }): boolean;
		toDate(input: string): Date | null;
		isEmail(str: string): boolean;
		normalizeEmail(email: string): string | false;
	};
	export default v;
}
declare module 'better-sqlite3' {
	namespace Database {
		interface RunResult { changes: number; lastInsertRowid: number | bigint; }
		interface Statement {
			run(...params: any[]): RunResult;
			get(...params: any[]): unknown;
			all(...params: any[]): unknown[];
			iterate(...params: any[]): IterableIterator<unknown>;
			raw(toggleState?: boolean): this;
		}
		interface Database {
			prepare(source: string): Statement;
			exec(source: string): this;
			defaultSafeIntegers(toggleState?: boolean): this;
			close(): this;
		}
	}
	interface Ctor { new (filename?: string): Database.Database; }
	const Database: Ctor;
	export default Database;
}
