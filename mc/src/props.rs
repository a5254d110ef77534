use crate::engine::*;
use crate::patchx::*;

pub struct Prop {
    pub id: &'static str,
    pub explore: fn(&Ctx),
}

pub fn handler(kind: &str) -> Handler {
    match kind {
        "patch" => h_patch,
        "pyints" => crate::spaces9::h_pyints,
        "pymmap" => crate::spaces9::h_pymmap,
        "pydeps" => crate::spaces9::h_pydeps,
        "patchcli" => crate::spaces10::h_patchcli,
        "pypatch" => crate::pyx::h_pypatch,
        "sources" => crate::spaces::h_sources,
        "array" => crate::spaces2::h_array,
        "keep" => crate::spaces2::h_keep,
        "incl" => crate::spaces3::h_incl,
        "deps" => crate::spaces3::h_deps,
        "frame" => crate::spaces4::h_frame,
        "atomic" => crate::spaces4::h_atomic,
        "conv" => crate::spaces4::h_conv,
        "info" => crate::spaces4::h_info,
        "format" => crate::spaces4::h_format,
        "validate" => crate::spaces4::h_validate,
        "expanded" => crate::spaces3::h_expanded,
        "mmap" => crate::spaces5::h_mmap,
        "intsvd" => crate::spaces5::h_intsvd,
        "ints" => crate::spaces5::h_ints,
        "compare" => crate::spaces6::h_compare,
        "regen" => crate::spaces6::h_regen,
        "html" => crate::spaces6::h_html,
        _ => panic!("no handler {kind}"),
    }
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C33", explore: crate::spaces10::patch_command },
    Prop { id: "C31", explore: crate::spaces9::py_listings },
    Prop { id: "C32", explore: crate::spaces8::py_patch },
    Prop { id: "C03", explore: crate::spaces::delete },
    Prop { id: "C04", explore: crate::spaces::add },
    Prop { id: "C05", explore: crate::spaces::modify },
    Prop { id: "C06", explore: crate::spaces::copy },
    Prop { id: "C07", explore: crate::spaces::derive },
    Prop { id: "C08", explore: crate::spaces::rebase },
    Prop { id: "C01", explore: crate::spaces2::specs },
    Prop { id: "C02", explore: crate::spaces2::required },
    Prop { id: "C09", explore: crate::spaces2::arrays },
    Prop { id: "C10", explore: crate::spaces2::collect_clusters },
    Prop { id: "C11", explore: crate::spaces2::expansion },
    Prop { id: "C12", explore: crate::spaces2::merge_split },
    Prop { id: "C13", explore: crate::spaces2::strip },
    Prop { id: "C14", explore: crate::spaces2::enums },
    Prop { id: "C15", explore: crate::spaces2::constraints },
    Prop { id: "C16", explore: crate::spaces2::derived },
    Prop { id: "C17", explore: crate::spaces2::phases },
    Prop { id: "C22", explore: crate::spaces2::literals },
    Prop { id: "C18", explore: crate::spaces3::includes },
    Prop { id: "C19", explore: crate::spaces3::deps },
    Prop { id: "C37", explore: crate::spaces3::expanded },
    Prop { id: "C20", explore: crate::spaces4::atomic },
    Prop { id: "C21", explore: crate::spaces4::frame },
    Prop { id: "C23", explore: crate::spaces4::convert },
    Prop { id: "C29", explore: crate::spaces4::format },
    Prop { id: "C30", explore: crate::spaces4::validate },
    Prop { id: "C24", explore: crate::spaces5::mmap },
    Prop { id: "C25", explore: crate::spaces5::interrupts },
    Prop { id: "C26", explore: crate::spaces6::html_coverage },
    Prop { id: "C27", explore: crate::spaces6::html_compare },
    Prop { id: "C35", explore: crate::spaces6::html_regenerate },
    Prop { id: "C34", explore: crate::spaces6::html_pages },
    Prop { id: "C28", explore: crate::spaces2::interpolation },
];
