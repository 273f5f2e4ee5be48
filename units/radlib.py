"""The RADON crate built from its own files: rad/src as it stands (without the retrieval over the network), radon_report.rs and
radon_error.rs as they stand, what they need of the chain extracted; external crates that cannot be had here are stood in for."""
import os, re, shutil
from extract import Extract
from rs import *
from harness import write

HERE = os.path.join(VERIF, "harness", "rad")
LI, CN, TA, VE = "rad/src/lib.rs", "data_structures/src/chain/mod.rs", "data_structures/src/chain/tapi.rs", "data_structures/src/proto/versioning.rs"
RAD_MODS = ["conditions", "error", "filters", "hash_functions", "operators", "reducers", "script", "types"]
STUBS = dict(serde_cbor='serde = "1"\nserde_json = "1"\n', cbor='serde_cbor = { path = "../serde_cbor" }\n', num_enum='num_enum_derive = { path = "../num_enum_derive" }\n', num_enum_derive="", ordered_float="", base64="", bs58="", regex="",
             jsonpath='serde_json = "1"\n', minidom="", slicestring="", url="", log="", if_rust_version="")
ED = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "%s"\n%s[dependencies]\n%s'
ALL = 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\nanyhow = "1"\nthiserror = "2"\nhex = "0.4"\n' + "".join('%s = { path = "../%s" }\n' % (n, n) for n in STUBS if n != "num_enum_derive")


def crates(work, lib_roots):
    """Writes the crates under work/crate and returns the dependency lines of the harness on them."""
    d = os.path.join(work, "crate")

    def crate(name, text, deps, edition="2021", extra=""):
        p = os.path.join(d, name)
        os.makedirs(os.path.join(p, "src"), exist_ok=True)
        write(os.path.join(p, "Cargo.toml"), ED % (name, edition, extra, deps))
        write(os.path.join(p, "src", "lib.rs"), text)

    for n, deps in STUBS.items():
        crate(n, open(os.path.join(HERE, n + ".rs")).read(), deps, extra="[lib]\nproc-macro = true\n" if n == "num_enum_derive" else "")
    at = lambda rel: os.path.join(REPO, rel)
    ds = Extract([TA, CN], stubs=["Hash", "Environment", "PublicKeyHash", "Epoch"], derive={"ActiveWips": dict(add=["serde::Serialize"])}, no=["ActiveWips::fmt"])
    chain = ds.build(["ActiveWips", "ActiveWips::*", "RADTally", "RADAggregate", "RADFilter", "RADTally::*", "RADFilter::*"])
    crate("witnet_data_structures", """
#[path = "%s"] pub mod radon_report;
#[path = "%s"] pub mod radon_error;
pub mod proto { pub mod versioning { #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, serde::Serialize)] pub enum ProtocolVersion { #[default] V1_7, V1_8, V2_0, V2_1 } } }
pub mod chain {
    #![allow(unused)]
    use std::collections::*; use std::fmt;
    pub type Epoch = u32; pub type Environment = u8; pub type PublicKeyHash = [u8; 20];
    pub mod tapi { pub use super::ActiveWips; pub fn current_active_wips() -> ActiveWips { ActiveWips { active_wips: Default::default(), block_epoch: 0 } } }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Hash(pub Vec<u8>);
    impl From<witnet_crypto::hash::Sha256> for Hash { fn from(x: witnet_crypto::hash::Sha256) -> Hash { Hash(x.as_ref().to_vec()) } }
    %s
}
""" % (at("data_structures/src/radon_report.rs"), at("data_structures/src/radon_error.rs"), chain), ALL + 'witnet_crypto = { path = "%s" }\n' % at("crypto"), "2024")
    ex = Extract([LI], stubs=["RadError"])
    lib = ex.build(lib_roots)
    mods = "".join('#[path = "%s"] pub mod %s;\n' % (at("rad/src/%s%s" % (m, ".rs" if os.path.exists(at("rad/src/%s.rs" % m)) else "/mod.rs")), m) for m in RAD_MODS)
    crate("witnet_rad", mods + """
#[allow(unused)] use witnet_data_structures::{chain::{*, tapi::*}, radon_report::*, radon_error::*};
#[allow(unused)] use {conditions::*, error::RadError, script::*, types::{*, array::RadonArray}};
""" + lib, ALL + 'witnet_crypto = { path = "%s" }\nwitnet_data_structures = { path = "../witnet_data_structures" }\n' % at("crypto"), "2024")
    return ALL.replace('"../', '"') + 'witnet_crypto = { path = "%s" }\nwitnet_data_structures = { path = "witnet_data_structures" }\nwitnet_rad = { path = "witnet_rad" }\n' % at("crypto")
