//! ERC-721 and its extensions.
use alloy_primitives::{Address, FixedBytes, U256, Uint};
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{
        consecutive, enumerable, wrapper, Erc721Consecutive, Erc721Enumerable, Erc721Wrapper,
        IErc721Burnable,
    },
    Erc721, IErc721,
};
use serde_json::Value;
use stylus_sdk::{abi::Bytes, prelude::*};

use super::*;
use crate::{host, mocks, router};

type U96 = Uint<96, 2>;
const MISSING: &str = "ERC721NonexistentToken(uint256)";

#[storage]
pub struct Erc721H {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for Erc721H {}
#[public]
#[inherit(Erc721)]
impl Erc721H {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.erc721._safe_mint(to, id, &data)
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(id)
    }
    fn force_burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    fn force_update(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, erc721::Error> {
        self.erc721._update(to, id, auth)
    }
    fn force_approve(&mut self, to: Address, id: U256, auth: Address, emit: bool) -> Result<(), erc721::Error> {
        self.erc721._approve(to, id, auth, emit)
    }
    fn force_set_all(&mut self, owner: Address, op: Address, on: bool) -> Result<(), erc721::Error> {
        self.erc721._set_approval_for_all(owner, op, on)
    }
    fn is_authorized(&self, owner: Address, spender: Address, id: U256) -> bool {
        self.erc721._is_authorized(owner, spender, id)
    }
    fn check_authorized(&self, owner: Address, spender: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._check_authorized(owner, spender, id)
    }
    fn raw_owner(&self, id: U256) -> Address {
        self.erc721._owner_of(id)
    }
    fn raw_approved(&self, id: U256) -> Address {
        self.erc721._get_approved(id)
    }
    fn force_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._transfer(from, to, id)
    }
    fn force_safe_transfer(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> Result<(), erc721::Error> {
        self.erc721._safe_transfer(from, to, id, &data)
    }
}

type Extra = Result<(), (&'static str, String)>;

/// Ownership and approvals: reads of missing tokens and of the zero account
/// are rejected, all others answer from the ledger.
pub fn ledger(c: &Ctx, at: u64, nft: &Value) -> Extra {
    let owners = itf::map(&nft["owner"]);
    for (k, v) in &owners {
        let o = itf::int(v);
        let missing = || Err((MISSING, vec![k.clone()]));
        let w = if o.is_zero() { missing() } else { Ok(vec![vec![o]]) };
        expect(c, at, "ownerOf(uint256)(address)", &[k.clone()], w).map_err(|e| ("owner", e))?;
    }
    for (k, v) in itf::map(&nft["bal"]) {
        let w = if k[0].is_zero() {
            Err(("ERC721InvalidOwner(address)", vec![vec![U256::ZERO]]))
        } else {
            Ok(vec![vec![itf::int(v)]])
        };
        expect(c, at, "balanceOf(address)(uint256)", &[k], w).map_err(|e| ("bal", e))?;
    }
    for (k, v) in itf::map(&nft["appr"]) {
        let o = owners.iter().find(|x| x.0 == k).map(|x| itf::int(x.1)).unwrap();
        let w = if o.is_zero() {
            Err((MISSING, vec![k.clone()]))
        } else {
            Ok(vec![vec![itf::int(v)]])
        };
        expect(c, at, "getApproved(uint256)(address)", &[k], w).map_err(|e| ("appr", e))?;
    }
    for (k, v) in itf::map(&nft["oper"]) {
        expect(
            c,
            at,
            "isApprovedForAll(address,address)(bool)",
            &[vec![k[0]], vec![k[1]]],
            Ok(vec![vec![itf::int(v)]]),
        )
        .map_err(|e| ("oper", e))?;
    }
    Ok(())
}

pub static ERC721: Domain = Domain {
    name: "erc721",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(Erc721H), true));
        c.deploy(1, Code::Mock(mocks::actor));
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let nft = itf::var(st, "nft");
        raw(c, nft)?;
        ledger(c, 0, nft)
    },
};

/// The unchecked reads: zero where there is nothing.
fn raw(c: &Ctx, nft: &Value) -> Extra {
    for (var, sig) in [("owner", "rawOwner(uint256)(address)"), ("appr", "rawApproved(uint256)(address)")] {
        for (k, v) in itf::map(&nft[var]) {
            expect(c, 0, sig, &[k], Ok(vec![vec![itf::int(v)]])).map_err(|e| (var, e))?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------- enumerable
#[derive(SolidityError, Debug)]
pub enum EnumError {
    Enumerable(enumerable::Error),
    Erc721(erc721::Error),
}

/// Composed as the library's documentation and example prescribe, except that
/// a transfer to the current owner leaves the lists alone (known finding).
#[storage]
pub struct EnumH {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    enumerable: Erc721Enumerable,
}
unsafe impl TopLevelStorage for EnumH {}
impl EnumH {
    fn minted(&mut self, to: Address, id: U256) -> Result<(), EnumError> {
        self.enumerable._add_token_to_all_tokens_enumeration(id);
        Ok(self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?)
    }
    fn moved(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnumError> {
        if from == to {
            return Ok(());
        }
        self.enumerable._remove_token_from_owner_enumeration(from, id, &self.erc721)?;
        Ok(self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?)
    }
    fn burnt(&mut self, from: Address, id: U256) -> Result<(), EnumError> {
        self.enumerable._remove_token_from_owner_enumeration(from, id, &self.erc721)?;
        self.enumerable._remove_token_from_all_tokens_enumeration(id);
        Ok(())
    }
}
#[public]
#[inherit(Erc721, Erc721Enumerable)]
impl EnumH {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), EnumError> {
        self.erc721._mint(to, id)?;
        self.minted(to, id)
    }
    fn check_increase_balance(&self, n: u128) -> Result<(), EnumError> {
        Ok(Erc721Enumerable::_check_increase_balance(n)?)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), EnumError> {
        self.erc721._safe_mint(to, id, &data)?;
        self.minted(to, id)
    }
    fn burn(&mut self, id: U256) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.burn(id)?;
        self.burnt(owner, id)
    }
    fn force_burn(&mut self, id: U256) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721._burn(id)?;
        self.burnt(owner, id)
    }
    fn transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        self.moved(owner, to, id)
    }
    fn force_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721._transfer(from, to, id)?;
        self.moved(owner, to, id)
    }
    fn safe_transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from(from, to, id)?;
        self.moved(owner, to, id)
    }
    #[selector(name = "safeTransferFrom")]
    fn safe_transfer_from_with_data(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from_with_data(from, to, id, data)?;
        self.moved(owner, to, id)
    }
    fn force_safe_transfer(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> Result<(), EnumError> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721._safe_transfer(from, to, id, &data)?;
        self.moved(owner, to, id)
    }
}

fn read1(c: &Ctx, sig: &str, args: &[Vec<U256>]) -> Out {
    let data = abi::calldata(&abi::parse(sig), args, &|v| c.addr(v));
    host::call(c.addr(U256::from(1)), c.contract(U256::ZERO), U256::ZERO, &data, true)
}

/// Reads a whole index and compares it, as a set, with what it must list.
fn listing(
    c: &Ctx,
    sig: &str,
    prefix: &[Vec<U256>],
    owner: U256,
    mut want: Vec<U256>,
) -> Result<(), String> {
    const OUT: &str = "ERC721OutOfBoundsIndex(address,uint256)";
    let oob = |i: U256| abi::calldata(&abi::parse(OUT), &[vec![owner], vec![i]], &|v| c.addr(v));
    let n = want.len();
    let mut got = vec![];
    let mut gaps = 0;
    for i in 0..n {
        let i = U256::from(i);
        let mut args = prefix.to_vec();
        args.push(vec![i]);
        match read1(c, sig, &args) {
            Ok(b) if b.len() == 32 => got.push(U256::from_be_slice(&b)),
            // Listed known finding: an owner's entry for token 0 reads as
            // out of bounds.
            Err(e) if !prefix.is_empty() && e == oob(i) => gaps += 1,
            x => return Err(format!("{sig}{args:?}: {x:02x?}")),
        }
    }
    if gaps == 1 && want.iter().any(|x| x.is_zero()) {
        got.push(U256::ZERO);
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("{sig}{prefix:?} lists {got:?}, specified {want:?}"));
    }
    for i in [U256::from(n), U256::from(n + 1), U256::from(n + 2), U256::MAX] {
        let mut args = prefix.to_vec();
        args.push(vec![i]);
        let r = read1(c, sig, &args);
        if r != Err(oob(i)) {
            return Err(format!("{sig}{args:?}: {r:02x?}, specified out of bounds"));
        }
    }
    Ok(())
}

/// The lists of all tokens and of each owner's, against the ledger.
pub fn lists(c: &Ctx, nft: &Value) -> Extra {
    let owners = itf::map(&nft["owner"]);
    let all: Vec<U256> =
        owners.iter().filter(|x| !itf::int(x.1).is_zero()).map(|x| x.0[0]).collect();
    expect(c, 0, "totalSupply()(uint256)", &[], Ok(vec![vec![U256::from(all.len())]]))
        .map_err(|e| ("supply", e))?;
    listing(c, "tokenByIndex(uint256)(uint256)", &[], U256::ZERO, all)
        .map_err(|e| ("all", e))?;
    for (k, _) in itf::map(&nft["bal"]) {
        let own: Vec<U256> =
            owners.iter().filter(|x| itf::int(x.1) == k[0]).map(|x| x.0[0]).collect();
        let own = if k[0].is_zero() { vec![] } else { own };
        listing(
            c,
            "tokenOfOwnerByIndex(address,uint256)(uint256)",
            &[k.clone()],
            k[0],
            own,
        )
        .map_err(|e| ("owned", e))?;
    }
    Ok(())
}

pub static ENUMERABLE: Domain = Domain {
    name: "erc721enum",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(EnumH), true));
        c.deploy(1, Code::Mock(mocks::actor));
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let nft = itf::var(st, "nft");
        ledger(c, 0, nft)?;
        lists(c, nft)
    },
};

// -------------------------------------------------------------- consecutive
#[storage]
pub struct ConsecutiveH {
    #[borrow]
    inner: Erc721Consecutive,
}
unsafe impl TopLevelStorage for ConsecutiveH {}
type ConsR<T> = Result<T, consecutive::Error>;
#[public]
#[inherit(Erc721Consecutive)]
impl ConsecutiveH {
    fn mint_consecutive(&mut self, to: Address, n: U96) -> ConsR<U96> {
        self.inner._mint_consecutive(to, n)
    }
    fn mint(&mut self, to: Address, id: U256) -> ConsR<()> {
        self.inner._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> ConsR<()> {
        self.inner._safe_mint(to, id, &data)
    }
    fn burn(&mut self, id: U256) -> ConsR<()> {
        self.inner._burn(id)
    }
    fn burn_authorized(&mut self, id: U256) -> ConsR<()> {
        // As the overridden `burn` of the library's examples.
        let sender = stylus_sdk::msg::sender();
        self.inner._update(Address::ZERO, id, sender)?;
        Ok(())
    }
    fn force_update(&mut self, to: Address, id: U256, auth: Address) -> ConsR<()> {
        self.inner._update(to, id, auth)?;
        Ok(())
    }
    fn raw_owner(&self, id: U256) -> Address {
        self.inner._owner_of(id)
    }
    fn raw_approved(&self, id: U256) -> Address {
        self.inner._get_approved(id)
    }
    fn force_approve(&mut self, to: Address, id: U256, auth: Address, emit: bool) -> ConsR<()> {
        self.inner._approve(to, id, auth, emit)
    }
    fn force_transfer(&mut self, from: Address, to: Address, id: U256) -> ConsR<()> {
        self.inner._transfer(from, to, id)
    }
    fn force_safe_transfer(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> ConsR<()> {
        self.inner._safe_transfer(from, to, id, &data)
    }
}

pub static CONSECUTIVE: Domain = Domain {
    name: "consecutive",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(ConsecutiveH), true));
        c.deploy(1, Code::Mock(mocks::actor));
        // ERC-721 (4 slots), checkpoints (1), bitmap (1), then both limits.
        poke(a, slot(6), o.args[0][0] | (o.args[1][0] << 96));
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let nft = itf::var(st, "nft");
        raw(c, nft)?;
        ledger(c, 0, nft)
    },
};

// ------------------------------------------------------------------ wrapper
#[storage]
pub struct Wrap721H {
    #[borrow]
    erc721: Erc721,
    wrapper: Erc721Wrapper,
}
unsafe impl TopLevelStorage for Wrap721H {}
#[public]
#[inherit(Erc721)]
impl Wrap721H {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, ids, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(
        &mut self,
        operator: Address,
        from: Address,
        id: U256,
        data: Bytes,
    ) -> Result<FixedBytes<4>, wrapper::Error> {
        self.wrapper.on_erc721_received(operator, from, id, data, &mut self.erc721)
    }
}

pub static WRAPPER: Domain = Domain {
    name: "wrapper721",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Wrap721H), true));
        c.deploy(1, Code::Mock(mocks::actor));
        let u = c.deploy(2, Code::Mock(mocks::nft));
        poke(a, slot(4), addr_word(u));
    },
    custom: super::erc20x::set_mode,
    proj: &[],
    extra: |c, _, st| {
        ledger(c, 0, itf::var(st, "wr"))?;
        for (k, v) in itf::map(&itf::var(st, "und")["owner"]) {
            let o = itf::int(v);
            let want = if o.is_zero() { Err(("#empty", vec![])) } else { Ok(vec![vec![o]]) };
            expect(c, 2, "ownerOf(uint256)(address)", &[k], want).map_err(|e| ("und", e))?;
        }
        Ok(())
    },
};
