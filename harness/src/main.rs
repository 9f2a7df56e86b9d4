mod sym;
mod schema;
mod wire;
mod ast;
mod text;
mod names;
mod api;
mod syntax;
mod grammar;
mod history;
mod cost;

/// Natively, a request for 16 MiB or more fails, as it does in the engine: no input is near that size.
struct Limited;

unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if sym::scale() > 1 {
            sym::ALLOCATED.fetch_add(l.size() as u64, std::sync::atomic::Ordering::Relaxed);
        } else if l.size() >= 1 << 24 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}

#[global_allocator]
static LIMITED: Limited = Limited;

type H = (&'static str, extern "C" fn());

#[no_mangle]
pub static TABLE: &[H] = &[
    ("h_c01_free", wire::h_c01_free),
    ("h_c01_rec", wire::h_c01_rec),
    ("h_c01_wide", wire::h_c01_wide),
    ("h_c01_large", wire::h_c01_large),
    ("h_c01_deep", wire::h_c01_deep),
    ("h_deep_native", wire::h_deep_native),
    ("h_c01_encode", wire::h_c01_encode),
    ("h_c01_made", wire::h_c01_made),
    ("h_c02_free", wire::h_c02_free),
    ("h_c02_rec", wire::h_c02_rec),
    ("h_c02_field", wire::h_c02_field),
    ("h_c02_len", wire::h_c02_len),
    ("h_c02_many", wire::h_c02_many),
    ("h_c03", wire::h_c03),
    ("h_c03_raw", wire::h_c03_raw),
    ("h_c04", wire::h_c04),
    ("h_c04_long", wire::h_c04_long),
    ("h_c04_mix", wire::h_c04_mix),
    ("h_c05", wire::h_c05),
    ("h_c05_raw", wire::h_c05_raw),
    ("h_c05_deep", wire::h_c05_deep),
    ("h_c06_field", wire::h_c06_field),
    ("h_c06_concat", wire::h_c06_concat),
    ("h_c06_poor", wire::h_c06_poor),
    ("h_c07_free", wire::h_c07_free),
    ("h_c07_msg", wire::h_c07_msg),
    ("h_c07_scalar", wire::h_c07_scalar),
    ("h_c08", wire::h_c08),
    ("h_c08_nested", wire::h_c08_nested),
    ("h_c09", wire::h_c09),
    ("h_c09_long", wire::h_c09_long),
    ("h_c09_two", wire::h_c09_two),
    ("h_c10", wire::h_c10),
    ("h_c10_deep", wire::h_c10_deep),
    ("h_c10_sib", wire::h_c10_sib),
    ("h_c10_len", wire::h_c10_len),
    ("h_c11", text::h_c11),
    ("h_c11_token", syntax::h_c11_token),
    ("h_c12_int", text::h_c12_int),
    ("h_c12_limit", text::h_c12_limit),
    ("h_c12_lex", text::h_c12_lex),
    ("h_c12_str", text::h_c12_str),
    ("h_c12_word", text::h_c12_word),
    ("h_c12_float", text::h_c12_float),
    ("h_c13", names::h_c13),
    ("h_c14", names::h_c14),
    ("h_c14_num", names::h_c14_num),
    ("h_c14_many", names::h_c14_many),
    ("h_c15", names::h_c15),
    ("h_c19", names::h_c19),
    ("h_c19_stmts", names::h_c19_stmts),
    ("h_c16_ctx", api::h_c16_ctx),
    ("h_c16_msg", api::h_c16_msg),
    ("h_c16_enum", api::h_c16_enum),
    ("h_c16_same", api::h_c16_same),
    ("h_c17", syntax::h_c17),
    ("h_c17_word", syntax::h_c17_word),
    ("h_c18", syntax::h_c18),
    ("h_c20", syntax::h_c20),
    ("h_c22", grammar::h_c22),
    ("h_c22_edit", grammar::h_c22_edit),
    ("h_c22_char", grammar::h_c22_char),
    ("h_c22_name", grammar::h_c22_name),
    ("h_c22_version", grammar::h_c22_version),
    ("h_c23_wire", history::h_c23_wire),
    ("h_c23_kinds", history::h_c23_kinds),
    ("h_c23_parse", history::h_c23_parse),
    ("h_c23_lookup", history::h_c23_lookup),
    ("h_c24_wire", cost::h_c24_wire),
    ("h_c24_deep", cost::h_c24_deep),
    ("h_c24_claim", cost::h_c24_claim),
    ("h_c24_parse", cost::h_c24_parse),
    ("h_c21", syntax::h_c21),
    ("h_c21_any", syntax::h_c21_any),
    ("h_c16_parsed", api::h_c16_parsed),
    ("h_c13_deep", names::h_c13_deep),
    ("h_c19_files", names::h_c19_files),
    ("h_c21_long", syntax::h_c21_long),
    ("h_c04_schema", wire::h_c04_schema),
    ("h_c10_types", wire::h_c10_types),
    ("h_any", wire::h_any),
    ("h_c16_pkgs", api::h_c16_pkgs),
    ("h_c23_again", history::h_c23_again),
    ("h_c23_worlds", history::h_c23_worlds),
    ("h_c23_orders", history::h_c23_orders),
    ("h_c12_wide", text::h_c12_wide),
    ("h_c12_zeros", text::h_c12_zeros),
    ("h_c05_number", wire::h_c05_number),
    ("h_c10_many", wire::h_c10_many),
    ("h_c10_huge", wire::h_c10_huge),
];

fn main() {
    // replay: harness NAME PARAM HEX
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(3).map(|s| s.as_str()).unwrap_or("");
    let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    sym::set(&b, a[2].parse().unwrap());
    for (n, f) in TABLE {
        if *n == a[1] {
            f();
            sym::done();
            return;
        }
    }
    std::process::exit(78);
}
