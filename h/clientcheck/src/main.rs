mod http_util;
mod p_err;
mod p_path;
mod p_query;
mod p_resp;
mod val;

fn main() {
    let mut cx = vk::Ctx::from_env();
    vk::quiet_panics();
    match cx.prop.clone().as_str() {
        "P01" => p_path::p01(&mut cx),
        "P02" => p_query::p02(&mut cx),
        "P03" => p_query::p03(&mut cx),
        "P04" => p_query::p04(&mut cx),
        "P05" => p_resp::p05(&mut cx),
        "P06" => p_resp::p06(&mut cx),
        "P07" => p_resp::p07(&mut cx),
        "P08" => p_err::p08(&mut cx),
        "P09" => p_err::p09(&mut cx),
        "P10" => p_resp::p10(&mut cx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    cx.finish()
}
