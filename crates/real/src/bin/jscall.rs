//! C30: the functions of wasm/src/js.rs for the JavaScript module's explorer.
//! jscall kinds          their names, in order, and the kinds of their parameters (v: a value, b: bytes)
//! jscall NAME           call one; arguments on standard input, a line each: J and JSON text, or R and hexadecimal
#[path = "/repo/wasm/src/js.rs"] #[allow(unused_mut, unused_macros, dead_code)] mod js;
use std::io::Read;
use wasm_bindgen::JsValue;

/// What the macro makes of a parameter's type.
trait Function { fn kinds(&self) -> String; fn call(&self, a: &[Vec<u8>]) -> String; }
trait Param<'a> { fn kind() -> char; fn of(b: &'a [u8]) -> Self; }
impl<'a> Param<'a> for JsValue { fn kind() -> char { 'v' } fn of(b: &'a [u8]) -> JsValue { JsValue(String::from_utf8(b.to_vec()).unwrap()) } }
impl<'a> Param<'a> for &'a [u8] { fn kind() -> char { 'b' } fn of(b: &'a [u8]) -> &'a [u8] { b } }
macro_rules! function { ($name:ident, $($p:ty),*) => {{
    struct F;
    impl Function for F {
        fn kinds(&self) -> String { let mut s = String::new(); $( s.push(<$p as Param>::kind()); )* s }
        #[allow(unused_assignments)]
        fn call(&self, a: &[Vec<u8>]) -> String { let mut i = 0; let r: JsValue = js::$name($( { i += 1; <$p as Param>::of(&a[i - 1]) } ),*); r.0 }
    }
    (stringify!($name), Box::new(F) as Box<dyn Function>)
}} }
fn functions() -> Vec<(&'static str, Box<dyn Function>)> {
    vec![
        function!(system_parameters_create, &[u8]),
        function!(issuer_create, JsValue, &[u8]),
        function!(issuer_new, JsValue, JsValue),
        function!(issuer_get_issuer_parameters, JsValue),
        function!(issuer_issue, JsValue, &[u8], &[u8]),
        function!(issuer_verify, JsValue, JsValue),
        function!(issuer_verify_roster_membership, JsValue, JsValue),
        function!(user_obtain_finish, &[u8], JsValue, JsValue, JsValue),
        function!(user_show, JsValue, JsValue, &[u8]),
    ]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "kinds" { for (n, f) in functions() { println!("{} {}", n, f.kinds()); } return; }
    // the roster entry's maker and opener have no JavaScript counterpart
    if a[1] == "entry" {
        use rand::SeedableRng;
        let s = signal_credential::parameters::SystemParameters::from_bytes(&unhex(&a[2])).unwrap();
        let e = signal_credential::phone_number::RosterEntryCommitment::create(&unhex(&a[3]), &s, &mut rand::ChaChaRng::from_seed([9; 32])).unwrap();
        println!("{}", serde_json::to_string(&e).unwrap());
        return;
    }
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let args: Vec<Vec<u8>> = text.lines().map(|l| if l.starts_with('J') { l[1..].as_bytes().to_vec() } else { unhex(&l[1..]) }).collect();
    let f = functions().into_iter().find(|f| f.0 == a[1]).unwrap().1;
    let r = f.call(&args);
    println!("\nRESULT {}", r);
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
