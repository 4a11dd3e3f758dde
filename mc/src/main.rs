mod c_basis;
mod c_dom;
mod c_field;
mod c_geo;
mod c_href;
mod c_io;
mod c_lin;
mod c_mesh;
mod c_num;
mod c_pref;
mod c_slepc;
mod cases;
mod ctx;
mod explore;
mod obs;
mod poly;
mod refm;
mod uni;

fn main() {
    ctx::install_panic_hook();
    if std::env::args().next().map_or(false, |a| std::path::Path::new(&a).file_name().map_or(false, |f| f == "mpiexec")) {
        std::process::exit(c_slepc::fake());
    }
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C01" => c_io::c01(),
        "C02" => c_io::c02(),
        "C22" => c_io::c22(),
        "C23" => c_io::c23(),
        "C03" => c_mesh::c03(),
        "C04" => c_mesh::c04(),
        "C05" => c_mesh::c05(),
        "C06" => c_href::c06(),
        "C07" => c_href::c07(),
        "C08" => c_pref::c08(),
        "C09" => c_dom::c09(),
        "C10" => c_dom::c10(),
        "C11" => c_dom::c11(),
        "C12" => c_dom::c12(),
        "C15" => c_num::c15(),
        "C16" => c_num::c16(),
        "C24" => c_num::c24(),
        "C17" => c_lin::c17(),
        "C18" => c_lin::c18(),
        "C19" => c_slepc::c19(),
        "C21" => c_field::c21(),
        "C20" => c_lin::c20(),
        "C25" => c_geo::c25(),
        "C26" => c_geo::c26(),
        "C27" => c_basis::c27(),
        "C14" => c_dom::c14(),
        _ => {
            eprintln!("unknown property {id:?}");
            2
        }
    };
    std::process::exit(code);
}
