// signatures, keys, superblocks and headers: stand-ins (what they hold is not looked at by the vote counting)
type Epoch = u32;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PublicKeyHash { x: u16 }
impl FromStr for PublicKeyHash { type Err = String; fn from_str(s: &str) -> std::result::Result<Self, String> { Ok(PublicKeyHash { x: 60000 + s.len() as u16 }) } }
impl fmt::Display for PublicKeyHash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.x) } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct PublicKey { x: u16 }
impl PublicKey { fn pkh(&self) -> PublicKeyHash { PublicKeyHash { x: self.x as u16 } } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Signature { x: u8 }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Bn256Signature { signature: Vec<u8> }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct SuperBlock { signing_committee_length: u32, hash: Hash }
impl SuperBlock { fn hash(&self) -> Hash { self.hash } }
pub struct BlockHeader {}
pub struct AltKeys {}
#[derive(Clone)] pub struct Bn256PublicKey {}
#[derive(Clone, Copy)] pub struct ProtocolVersion {}
impl ProtocolVersion { fn from_epoch(_e: Epoch) -> Self { ProtocolVersion {} } }
impl AltKeys { fn get_bn256(&self, _p: &PublicKeyHash) -> Option<&Bn256PublicKey> { None } }
#[derive(Clone, Copy, PartialEq, Eq)] pub enum Environment { Mainnet, Testnet, Development }
fn hash_key_leaves(_k: &[Bn256PublicKey]) -> Vec<Hash> { vec![] }
fn mining_build_superblock(_b: &[BlockHeader], _l: &[Hash], _i: u32, h: Hash, n: u32, _p: ProtocolVersion) -> SuperBlock { SuperBlock { signing_committee_length: n, hash: h } }
fn in_emergency_period(_i: u32, _e: Environment) -> Option<Vec<PublicKeyHash>> { None }
mod types { pub enum Command { SuperBlockVote(super::SuperBlockVote) } impl std::fmt::Display for Command { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } } }
use types::Command;

