//! Stand-in for blockstack-core: the types and signatures romeo uses.
use std::fmt;
macro_rules! dbg_display { ($($t:ty),*) => { $(impl fmt::Display for $t { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } })* } }

pub mod util {
	#[derive(Debug)] pub struct HexError(());
	impl std::fmt::Display for HexError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
	impl std::error::Error for HexError {}
}
pub mod net { pub use crate::codec::Error; }
pub mod burnchains {
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
	pub struct Txid(pub [u8; 32]);
	impl Txid {
		pub fn from_hex(_hex: &str) -> Result<Txid, crate::util::HexError> { unimplemented!() }
		pub fn to_hex(&self) -> String { unimplemented!() }
		pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
		pub fn to_bytes(&self) -> [u8; 32] { self.0 }
	}
}
pub mod core {
	pub const CHAIN_ID_MAINNET: u32 = 0x00000001;
	pub const CHAIN_ID_TESTNET: u32 = 0x80000000;
}
pub mod codec {
	#[derive(Debug)] pub struct Error(());
	impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
	impl std::error::Error for Error {}
	pub trait StacksMessageCodec {
		fn consensus_serialize<W: std::io::Write>(&self, fd: &mut W) -> Result<(), Error> where Self: Sized;
		fn consensus_deserialize<R: std::io::Read>(fd: &mut R) -> Result<Self, Error> where Self: Sized;
		fn serialize_to_vec(&self) -> Vec<u8> where Self: Sized { unimplemented!() }
	}
}
macro_rules! codec { ($($t:ty),*) => { $(impl crate::codec::StacksMessageCodec for $t {
	fn consensus_serialize<W: std::io::Write>(&self, _fd: &mut W) -> Result<(), crate::codec::Error> { unimplemented!() }
	fn consensus_deserialize<R: std::io::Read>(_fd: &mut R) -> Result<Self, crate::codec::Error> { unimplemented!() }
})* } }
pub mod types {
	pub mod chainstate {
		#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
		pub struct StacksAddress { pub version: u8, pub bytes: [u8; 20] }
		#[derive(Debug, Clone, PartialEq, Eq)]
		pub struct StacksPublicKey(());
		impl StacksPublicKey {
			pub fn from_slice(_data: &[u8]) -> Result<StacksPublicKey, &'static str> { unimplemented!() }
			pub fn from_hex(_hex: &str) -> Result<StacksPublicKey, &'static str> { unimplemented!() }
			pub fn from_private(_key: &StacksPrivateKey) -> StacksPublicKey { unimplemented!() }
		}
		#[derive(Debug, Clone, PartialEq, Eq)]
		pub struct StacksPrivateKey(());
		impl StacksPrivateKey {
			pub fn from_slice(_data: &[u8]) -> Result<StacksPrivateKey, &'static str> { unimplemented!() }
			pub fn from_hex(_hex: &str) -> Result<StacksPrivateKey, &'static str> { unimplemented!() }
		}
		codec!(StacksAddress);
	}
}
pub mod chainstate {
	pub mod stacks {
		use crate::{types::chainstate::*, vm::{types::Value, ClarityName, ContractName}};
		#[derive(Debug)] pub struct Error(());
		impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
		impl std::error::Error for Error {}
		#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum TransactionVersion { Mainnet, Testnet }
		#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum TransactionAnchorMode { OnChainOnly = 1, OffChainOnly = 2, Any = 3 }
		#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum TransactionPostConditionMode { Allow = 1, Deny = 2 }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct TransactionPostCondition(());
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct TransactionSpendingCondition(());
		impl TransactionSpendingCondition {
			pub fn new_singlesig_p2pkh(_pubkey: StacksPublicKey) -> Option<TransactionSpendingCondition> { unimplemented!() }
			pub fn new_singlesig_p2wpkh(_pubkey: StacksPublicKey) -> Option<TransactionSpendingCondition> { unimplemented!() }
		}
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum TransactionAuth { Standard(TransactionSpendingCondition), Sponsored(TransactionSpendingCondition, TransactionSpendingCondition) }
		#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
		pub struct TransactionContractCall { pub address: StacksAddress, pub contract_name: ContractName, pub function_name: ClarityName, pub function_args: Vec<Value> }
		#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
		pub enum TransactionPayload { ContractCall(TransactionContractCall), Other(()) }
		#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
		pub struct StacksTransaction {
			pub version: TransactionVersion, pub chain_id: u32, pub auth: TransactionAuth, pub anchor_mode: TransactionAnchorMode,
			pub post_condition_mode: TransactionPostConditionMode, pub post_conditions: Vec<TransactionPostCondition>, pub payload: TransactionPayload,
		}
		impl StacksTransaction {
			pub fn new(_version: TransactionVersion, _auth: TransactionAuth, _payload: TransactionPayload) -> StacksTransaction { unimplemented!() }
			pub fn set_origin_nonce(&mut self, _n: u64) { unimplemented!() }
			pub fn set_tx_fee(&mut self, _tx_fee: u64) { unimplemented!() }
			pub fn get_origin_nonce(&self) -> u64 { unimplemented!() }
			pub fn get_tx_fee(&self) -> u64 { unimplemented!() }
			pub fn tx_len(&self) -> u64 { unimplemented!() }
			pub fn txid(&self) -> crate::burnchains::Txid { unimplemented!() }
		}
		codec!(StacksTransaction);
		#[derive(Debug, Clone, PartialEq)]
		pub struct StacksTransactionSigner { pub tx: StacksTransaction, pub check_oversign: bool, pub check_overlap: bool }
		impl StacksTransactionSigner {
			pub fn new(_tx: &StacksTransaction) -> StacksTransactionSigner { unimplemented!() }
			pub fn sign_origin(&mut self, _privk: &StacksPrivateKey) -> Result<(), Error> { unimplemented!() }
			pub fn tx_incomplete(&self) -> bool { unimplemented!() }
			pub fn get_tx(&self) -> Option<StacksTransaction> { unimplemented!() }
		}
	}
}
pub mod vm {
	macro_rules! name { ($n:ident) => {
		#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
		pub struct $n(String);
		impl From<&'_ str> for $n { fn from(_: &str) -> Self { unimplemented!() } }
		impl From<$n> for String { fn from(_: $n) -> String { unimplemented!() } }
		impl TryFrom<String> for $n { type Error = crate::codec::Error; fn try_from(_: String) -> Result<Self, Self::Error> { unimplemented!() } }
		impl std::fmt::Display for $n { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
		impl std::ops::Deref for $n { type Target = str; fn deref(&self) -> &str { unimplemented!() } }
		impl $n { pub fn as_str(&self) -> &str { unimplemented!() } }
	} }
	name!(ContractName);
	name!(ClarityName);
	pub mod types {
		use super::*;
		#[derive(Debug)] pub struct Error(());
		impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
		impl std::error::Error for Error {}
		#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
		pub struct StandardPrincipalData(pub u8, pub [u8; 20]);
		#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
		pub struct QualifiedContractIdentifier { pub issuer: StandardPrincipalData, pub name: ContractName }
		impl QualifiedContractIdentifier { pub fn new(_issuer: StandardPrincipalData, _name: ContractName) -> Self { unimplemented!() } pub fn parse(_s: &str) -> Result<Self, Error> { unimplemented!() } }
		#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
		pub enum PrincipalData { Standard(StandardPrincipalData), Contract(QualifiedContractIdentifier) }
		impl From<crate::types::chainstate::StacksAddress> for PrincipalData { fn from(_: crate::types::chainstate::StacksAddress) -> Self { unimplemented!() } }
		impl From<StandardPrincipalData> for PrincipalData { fn from(_: StandardPrincipalData) -> Self { unimplemented!() } }
		impl From<QualifiedContractIdentifier> for PrincipalData { fn from(_: QualifiedContractIdentifier) -> Self { unimplemented!() } }
		codec!(PrincipalData);
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct BufferLength(pub u32);
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum SequenceSubtype { BufferType(BufferLength), Other(()) }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum TypeSignature { IntType, UIntType, BoolType, SequenceType(SequenceSubtype), Other(()) }
		pub static BUFF_32: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(32)));
		pub static BUFF_33: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(33)));
		pub static BUFF_20: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(20)));
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct ListTypeData(());
		impl ListTypeData { pub fn new_list(_entry_type: TypeSignature, _max_len: u32) -> Result<ListTypeData, Error> { unimplemented!() } }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct ListData { pub data: Vec<Value>, pub type_signature: ListTypeData }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub struct BuffData { pub data: Vec<u8> }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum SequenceData { Buffer(BuffData), List(ListData), String(()) }
		#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum Value { Int(i128), UInt(u128), Bool(bool), Sequence(SequenceData), Principal(PrincipalData), Tuple(()), Optional(()), Response(()) }
		impl Value {
			pub fn buff_from(_buff_data: Vec<u8>) -> Result<Value, Error> { unimplemented!() }
			pub fn list_from(_list: Vec<Value>) -> Result<Value, Error> { unimplemented!() }
			pub fn none() -> Value { unimplemented!() }
			pub fn some(_v: Value) -> Result<Value, Error> { unimplemented!() }
		}
		impl From<PrincipalData> for Value { fn from(_: PrincipalData) -> Self { unimplemented!() } }
	}
}
dbg_display!(burnchains::Txid, types::chainstate::StacksAddress, vm::types::PrincipalData, vm::types::QualifiedContractIdentifier, vm::types::StandardPrincipalData, vm::types::Value);
