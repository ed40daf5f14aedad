mod blank;
mod cat;
mod interp;
mod iso;
mod nquads;
mod pat;
mod pattern;
mod record_store;
mod record_stripe;
mod serde_;
mod term;
mod tuple;
mod replay_store;
mod store;
mod util;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if std::env::var("HARNESS_LOUD").is_err() {
		std::panic::set_hook(Box::new(|_| {}));
	}
	util::watchdog(30);
	let rest = &args[2..];
	let out = match args[1].as_str() {
		"replay-iso" => iso::replay(rest),
		"record-iso" => iso::record(rest),
		"replay-blankid" => blank::replay(rest),
		"record-blankid" => blank::record(rest),
		"record-blankgen" => blank::record_gen(rest),
		"many-blankgen" => blank::many(rest),
		"replay-interp" => interp::replay(rest),
		"record-interp" => interp::record(rest),
		"record-serde" => serde_::record(rest),
		"replay-tuple" => tuple::replay(rest),
		"record-tuple" => tuple::record(rest),
		"replay-term" => term::replay(rest),
		"record-term" => term::record(rest),
		"record-nquads" => nquads::record(rest),
		"record-stripe" => record_stripe::main(rest),
		"record-store" => record_store::main(rest),
		"replay-pattern" => pattern::replay(rest),
		"replay-setpattern" => pattern::replay_set(rest),
		"replay-patmap" => pattern::replay_map(rest),
		"record-patmap" => pattern::record_map(rest),
		"replay-store" => replay_store::main(rest),
		x => util::tool_error(&format!("unknown command {x}")),
	};
	out.print();
}
