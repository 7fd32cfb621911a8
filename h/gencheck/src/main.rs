mod calls;
mod doc;
mod e2e;
mod names;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;
mod p28;
mod p29;
mod p30;
mod pure;
mod schema;

fn main() {
    if let Ok(f) = std::env::var(p23::CHILD) {
        return p23::child(&f);
    }
    let mut cx = vk::Ctx::from_env();
    vk::quiet_panics();
    match cx.prop.clone().as_str() {
        "P11" => p11::p11(&mut cx),
        "P12" => p12::p12(&mut cx),
        "P13" => p13::p13(&mut cx),
        "P14" => p14::p14(&mut cx),
        "P15" => p15::p15(&mut cx),
        "P16" => p16::p16(&mut cx),
        "P18" => pure::p18(&mut cx),
        "P26" => p26::p26(&mut cx),
        "P30" => p30::p30(&mut cx),
        "P29" => p29::p29(&mut cx),
        "P28" => p28::p28(&mut cx),
        "P27" => p27::p27(&mut cx),
        "P25" => p25::p25(&mut cx),
        "P24" => p24::p24(&mut cx),
        "P23" => p23::p23(&mut cx),
        "P22" => p22::p22(&mut cx),
        "P21" => p21::p21(&mut cx),
        "P20" => p20::p20(&mut cx),
        "P19" => p19::p19(&mut cx),
        "P17" => schema::p17(&mut cx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    cx.finish()
}
