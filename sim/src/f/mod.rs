use crate::engine::*;
pub mod access;
pub mod algebra;
pub mod claims;
pub mod fungible;
pub mod nft;
pub fn no_inv(_: &mut Sim) -> Result<(), String> {
    Ok(())
}
pub fn no_knobs(_: &mut crate::rng::Rng, _: &mut Cfg) {}

pub struct Prop {
    pub id: &'static str,
    pub fams: &'static [&'static Fam],
    pub mode: Mode,
    /// deployments of other components built on this one, and the violation classes
    /// (by substring) that then count for this property
    pub also: &'static [(&'static Fam, &'static [&'static str])],
}
impl Prop {
    /// the deployment simulated by run number `idx`
    pub fn fam(&self, idx: u64) -> &'static Fam {
        let (n, k) = (self.fams.len() as u64, self.also.len() as u64);
        if k > 0 && idx % 5 == 4 {
            self.also[(idx / 5 % k) as usize].0
        } else {
            self.fams[(idx % n) as usize]
        }
    }
    pub fn all(&self) -> impl Iterator<Item = &'static Fam> {
        self.fams.iter().copied().chain(self.also.iter().map(|x| x.0))
    }
    /// does a violation of this class in this deployment speak about this property?
    pub fn counts(&self, fam: &Fam, class: &str) -> bool {
        if self.fams.iter().any(|f| f.name == fam.name) {
            return true;
        }
        self.also.iter().any(|(f, l)| f.name == fam.name && l.iter().any(|x| class.contains(x)))
    }
}
const fn p(id: &'static str, fams: &'static [&'static Fam]) -> Prop {
    Prop { id, fams, mode: Mode::Plain, also: &[] }
}
const fn px(
    id: &'static str,
    fams: &'static [&'static Fam],
    also: &'static [(&'static Fam, &'static [&'static str])],
) -> Prop {
    Prop { id, fams, mode: Mode::Plain, also }
}
use access as ac;
use algebra as al;
use claims as cl;
use fungible as fu;
use nft as nf;
/// every simulated deployment
pub const ALL: &[&Fam] = &[
    &fu::ERC20,
    &fu::PAUSE,
    &fu::PERMIT,
    &fu::NONCES,
    &fu::ECDSA,
    &fu::VAULT,
    &fu::VAULT_HOSTILE,
    &fu::FLASH,
    &fu::WRAP20,
    &fu::SAFE,
    &fu::VEST,
    &nf::ERC721,
    &nf::ERC721_RECV,
    &nf::ENUM721,
    &nf::CONS721,
    &nf::WRAP721,
    &nf::URI721,
    &nf::URI1155,
    &nf::ERC1155,
    &nf::ERC1155_RECV,
    &nf::SUPPLY1155,
    &nf::ROYALTY,
    &ac::OWNABLE,
    &ac::OWNABLE2,
    &ac::ACL,
    &ac::TRACE160,
    &ac::TRACE224,
    &ac::TRACE208,
    &ac::BITMAP,
    &cl::DROP,
    &al::NOTES,
    &al::ALGEBRA,
];
/// the deployments whose components announce their changes
const LOGGING: &[&Fam] = &[
    &fu::ERC20,
    &fu::PAUSE,
    &fu::PERMIT,
    &fu::VAULT,
    &fu::VAULT_HOSTILE,
    &fu::FLASH,
    &fu::WRAP20,
    &fu::VEST,
    &nf::ERC721,
    &nf::ERC721_RECV,
    &nf::ENUM721,
    &nf::CONS721,
    &nf::WRAP721,
    &nf::URI721,
    &nf::URI1155,
    &nf::ERC1155,
    &nf::ERC1155_RECV,
    &nf::SUPPLY1155,
    &ac::OWNABLE,
    &ac::OWNABLE2,
    &ac::ACL,
];
/// the deployments in which somebody holds or runs something
const LEAVING: &[&Fam] = &[
    &fu::ERC20,
    &fu::PAUSE,
    &fu::PERMIT,
    &fu::VAULT,
    &fu::VAULT_HOSTILE,
    &fu::FLASH,
    &fu::WRAP20,
    &fu::VEST,
    &nf::ERC721,
    &nf::ERC721_RECV,
    &nf::ENUM721,
    &nf::CONS721,
    &nf::WRAP721,
    &nf::ERC1155,
    &nf::ERC1155_RECV,
    &nf::SUPPLY1155,
    &ac::OWNABLE,
    &ac::OWNABLE2,
    &ac::ACL,
    &ac::TRACE160,
    &ac::TRACE224,
    &ac::TRACE208,
    &ac::BITMAP,
];
/// what every contract with an ERC-20 ledger promises, whatever else it does
const LEDGER20: &[&str] = &[
    "state:balanceOf(",
    "state:totalSupply(",
    "state:allowance(",
    "invariant:ledger",
    ":transfer(",
    ":transferFrom(",
    ":approve(",
    ":burn(",
    ":burnFrom(",
];
/// the same for an ERC-721 ledger
const LEDGER721: &[&str] = &[
    "state:balanceOf(",
    "state:ownerOf(",
    "state:getApproved(",
    "state:isApprovedForAll(",
    ":transferFrom(",
    ":approve(",
    ":setApprovalForAll(",
    ":burn(",
];
pub static PROPS: &[Prop] = &[
    px(
        "C01",
        &[&fu::ERC20],
        &[(&fu::PAUSE, LEDGER20), (&fu::PERMIT, LEDGER20), (&fu::VAULT, LEDGER20), (&fu::FLASH, LEDGER20), (&fu::WRAP20, LEDGER20)],
    ),
    p("C02", &[&fu::PAUSE]),
    p("C03", &[&fu::PERMIT]),
    px("C04", &[&fu::NONCES], &[(&fu::PERMIT, &["state:nonces(", ":useNonce(", ":useCheckedNonce("])]),
    p("C05", &[&fu::ECDSA]),
    p("C06", &[&fu::VAULT]),
    p("C07", &[&fu::VAULT_HOSTILE]),
    p("C08", &[&fu::FLASH]),
    p("C09", &[&fu::WRAP20]),
    p("C10", &[&fu::SAFE]),
    p("C11", &[&fu::VEST]),
    px(
        "C12",
        &[&nf::ERC721],
        &[(&nf::ERC721_RECV, &[""]), (&nf::URI721, LEDGER721), (&nf::ENUM721, LEDGER721), (&nf::CONS721, LEDGER721), (&nf::WRAP721, LEDGER721)],
    ),
    px(
        "C13",
        &[&nf::ERC721_RECV],
        &[
            (&nf::CONS721, &["peer-calls:", "callback-query:"]),
            (&nf::WRAP721, &["peer-calls:safe", "callback-query:safe"]),
            (&nf::ENUM721, &["peer-calls:", "callback-query:"]),
        ],
    ),
    p("C14", &[&nf::ENUM721]),
    p("C15", &[&nf::CONS721]),
    p("C16", &[&nf::WRAP721]),
    px(
        "C17",
        &[&nf::URI721, &nf::URI1155],
        &[(&fu::ERC20, &["state:name(", "state:symbol("]), (&fu::PAUSE, &["state:name(", "state:symbol("]), (&fu::VAULT, &["state:name(", "state:symbol("])],
    ),
    px("C18", &[&nf::ERC1155], &[(&nf::ERC1155_RECV, &[""]), (&nf::SUPPLY1155, &["state:balanceOf", "state:isApproved", "events:", ":setApprovalForAll("])]),
    px("C19", &[&nf::ERC1155_RECV], &[(&nf::SUPPLY1155, &["peer-calls:", "callback-query:"])]),
    p("C20", &[&nf::SUPPLY1155]),
    p("C21", &[&nf::ROYALTY]),
    px("C22", &[&ac::OWNABLE], &[(&ac::OWNABLE2, &["state:owner(", ":renounceOwnership(", "success:transferOwnership("]), (&fu::VEST, &["state:owner(", ":transferOwnership(", ":renounceOwnership("])]),
    p("C23", &[&ac::OWNABLE2]),
    p("C24", &[&ac::ACL]),
    p("C25", &[&ac::TRACE160, &ac::TRACE224, &ac::TRACE208]),
    px("C26", &[&ac::BITMAP], &[(&cl::DROP, &["state:isClaimed("])]),
    Prop { id: "C27", fams: ALL, mode: Mode::Faults, also: &[] },
    Prop { id: "C29", fams: LOGGING, mode: Mode::Logs, also: &[] },
    Prop { id: "C30", fams: LEAVING, mode: Mode::Exit, also: &[] },
    p("C31", &[&cl::DROP]),
    p("C32", &[&al::NOTES]),
    p("C33", &[&al::ALGEBRA]),
    Prop { id: "C28", fams: ALL, mode: Mode::ReadOnly, also: &[] },
];
