//! Whole tokens, put together from the extensions the way a deployment does it.
use alloc::string::String;

use alloy_primitives::{Address, Uint, B256, U256};
use openzeppelin_stylus::{
    access::{
        control::{self, AccessControl, IAccessControl},
        ownable::{self, Ownable},
        ownable_two_step::Ownable2Step,
    },
    token::{
        common::erc2981::{self, Erc2981},
        erc1155::{
            self,
            extensions::{
                Erc1155MetadataUri, Erc1155Supply, Erc1155UriStorage, IErc1155Supply,
            },
            IErc1155,
        },
        erc20::{
            self,
            extensions::{capped, Capped, Erc20Metadata, IErc20Burnable},
            Erc20, IErc20,
        },
        erc721::{
            self,
            extensions::{
                enumerable, Erc721Enumerable, Erc721Metadata, Erc721UriStorage, IErc721Burnable,
            },
            Erc721, IErc721,
        },
    },
    utils::pausable::{self, Pausable},
};
use serde_json::Value;
use stylus_sdk::{abi::Bytes, msg, prelude::*, storage::StorageType};

use super::*;
use crate::{host, mocks, router};

#[derive(SolidityError, Debug)]
pub enum Error20 {
    Capped(capped::Error),
    Erc20(erc20::Error),
    Pausable(pausable::Error),
    Ownable(ownable::Error),
}

#[storage]
pub struct Suite20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    metadata: Erc20Metadata,
    #[borrow]
    capped: Capped,
    #[borrow]
    pausable: Pausable,
    #[borrow]
    ownable: Ownable,
}
unsafe impl TopLevelStorage for Suite20 {}
#[public]
#[inherit(Erc20, Erc20Metadata, Capped, Pausable, Ownable)]
impl Suite20 {
    fn transfer(&mut self, to: Address, value: U256) -> Result<bool, Error20> {
        self.pausable.when_not_paused()?;
        Ok(self.erc20.transfer(to, value)?)
    }
    fn transfer_from(&mut self, from: Address, to: Address, value: U256) -> Result<bool, Error20> {
        self.pausable.when_not_paused()?;
        Ok(self.erc20.transfer_from(from, to, value)?)
    }
    fn burn(&mut self, value: U256) -> Result<(), Error20> {
        self.pausable.when_not_paused()?;
        Ok(self.erc20.burn(value)?)
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), Error20> {
        self.pausable.when_not_paused()?;
        Ok(self.erc20.burn_from(account, value)?)
    }
    fn mint(&mut self, account: Address, value: U256) -> Result<(), Error20> {
        self.pausable.when_not_paused()?;
        self.ownable.only_owner()?;
        let cap = self.capped.cap();
        if let Some(increased_supply) = self.erc20.total_supply().checked_add(value) {
            if increased_supply > cap {
                return Err(capped::Error::ExceededCap(capped::ERC20ExceededCap { increased_supply, cap }))?;
            }
        }
        Ok(self.erc20._mint(account, value)?)
    }
    fn pause(&mut self) -> Result<(), Error20> {
        self.ownable.only_owner()?;
        Ok(self.pausable.pause()?)
    }
    fn unpause(&mut self) -> Result<(), Error20> {
        self.ownable.only_owner()?;
        Ok(self.pausable.unpause()?)
    }
}

fn slots<T: StorageType>() -> u64 {
    T::REQUIRED_SLOTS as u64
}

pub static SUITE20: Domain = Domain {
    name: "suite20",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Suite20), false));
        // The parts lie one after the other, each from a slot of its own.
        let text = slots::<Erc20>();
        let cap = text + slots::<Erc20Metadata>();
        let owner = cap + slots::<Capped>() + slots::<Pausable>();
        poke_str(a, slot(text), &o.args[2]);
        poke_str(a, slot(text + 1), &o.args[3]);
        poke(a, slot(cap), o.args[1][0]);
        poke(a, slot(owner), addr_word(c.addr(o.args[0][0])));
    },
    custom: no_custom,
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
        proj("paused", "paused()(bool)"),
        proj("cap", "cap()(uint256)"),
        proj("owner", "owner()(address)"),
    ],
    extra: |c, _, st| {
        for (var, sig) in [("name", "name()(string)"), ("symbol", "symbol()(string)")] {
            expect(c, 0, sig, &[], Ok(vec![itf::list(itf::var(st, var))])).map_err(|e| (var, e))?;
        }
        expect(c, 0, "decimals()(uint8)", &[], Ok(vec![vec![U256::from(18)]])).map_err(|e| ("decimals", e))
    },
};

// --------------------------------------------------------------- collection
type U96 = Uint<96, 2>;

#[derive(SolidityError, Debug)]
pub enum Error721 {
    Erc721(erc721::Error),
    Enumerable(enumerable::Error),
    Royalty(erc2981::Error),
    Pausable(pausable::Error),
    Control(control::Error),
}

#[storage]
pub struct Suite721 {
    #[borrow]
    metadata: Erc721Metadata,
    #[borrow]
    erc721: Erc721,
    #[borrow]
    enumerable: Erc721Enumerable,
    uris: Erc721UriStorage,
    #[borrow]
    royalty: Erc2981,
    #[borrow]
    pausable: Pausable,
    #[borrow]
    control: AccessControl,
}
unsafe impl TopLevelStorage for Suite721 {}
impl Suite721 {
    fn minter() -> B256 {
        B256::from((U256::from(1) << 255) + U256::from(77))
    }
    fn making(&self) -> Result<(), Error721> {
        self.pausable.when_not_paused()?;
        Ok(self.control.only_role(Self::minter())?)
    }
    fn admin(&self) -> Result<(), Error721> {
        Ok(self.control.only_role(B256::ZERO)?)
    }
    fn minted(&mut self, to: Address, id: U256) -> Result<(), Error721> {
        self.enumerable._add_token_to_all_tokens_enumeration(id);
        Ok(self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?)
    }
    fn moved(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error721> {
        if from == to {
            return Ok(());
        }
        self.enumerable._remove_token_from_owner_enumeration(from, id, &self.erc721)?;
        Ok(self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?)
    }
}
#[public]
#[inherit(Erc721, Erc721Enumerable, Erc721Metadata, Erc2981, Pausable, AccessControl)]
impl Suite721 {
    fn construct(&mut self, admin: Address, denominator: U96) {
        self.royalty.fee_denominator.set(denominator);
        self.control._grant_role(B256::ZERO, admin);
        self.control._grant_role(Self::minter(), admin);
    }
    fn mint(&mut self, to: Address, id: U256, uri: String) -> Result<(), Error721> {
        self.making()?;
        self.erc721._mint(to, id)?;
        self.minted(to, id)?;
        self.uris._set_token_uri(id, uri);
        Ok(())
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), Error721> {
        self.making()?;
        self.erc721._safe_mint(to, id, &data)?;
        self.minted(to, id)
    }
    fn burn(&mut self, id: U256) -> Result<(), Error721> {
        self.pausable.when_not_paused()?;
        let owner = self.erc721.owner_of(id)?;
        self.erc721.burn(id)?;
        self.enumerable._remove_token_from_owner_enumeration(owner, id, &self.erc721)?;
        self.enumerable._remove_token_from_all_tokens_enumeration(id);
        self.royalty._reset_token_royalty(id);
        Ok(())
    }
    fn transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error721> {
        self.pausable.when_not_paused()?;
        let owner = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        self.moved(owner, to, id)
    }
    fn safe_transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error721> {
        self.pausable.when_not_paused()?;
        let owner = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from(from, to, id)?;
        self.moved(owner, to, id)
    }
    #[selector(name = "safeTransferFrom")]
    fn safe_transfer_from_with_data(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> Result<(), Error721> {
        self.pausable.when_not_paused()?;
        let owner = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from_with_data(from, to, id, data)?;
        self.moved(owner, to, id)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) -> Result<(), Error721> {
        self.control.only_role(Self::minter())?;
        self.uris._set_token_uri(id, uri);
        Ok(())
    }
    fn token_uri(&self, id: U256) -> Result<String, Error721> {
        Ok(self.uris.token_uri(id, &self.erc721, &self.metadata)?)
    }
    fn base_uri(&self) -> String {
        self.metadata.base_uri()
    }
    fn set_default_royalty(&mut self, to: Address, f: U96) -> Result<(), Error721> {
        self.admin()?;
        Ok(self.royalty._set_default_royalty(to, f)?)
    }
    fn delete_default_royalty(&mut self) -> Result<(), Error721> {
        self.admin()?;
        self.royalty._delete_default_royalty();
        Ok(())
    }
    fn set_token_royalty(&mut self, id: U256, to: Address, f: U96) -> Result<(), Error721> {
        self.admin()?;
        Ok(self.royalty._set_token_royalty(id, to, f)?)
    }
    fn pause(&mut self) -> Result<(), Error721> {
        self.admin()?;
        Ok(self.pausable.pause()?)
    }
    fn unpause(&mut self) -> Result<(), Error721> {
        self.admin()?;
        Ok(self.pausable.unpause()?)
    }
}

/// Every token's royalty, at prices with and without a remainder.
fn royalties(c: &Ctx, coll: &Value) -> Result<(), (&'static str, String)> {
    let d = U256::from(10_000);
    let get = |v: &Value| (itf::int(&v["to_"]), itf::int(&v["frac"]));
    let dflt = get(&coll["dflt"]);
    for (k, v) in itf::map(&coll["own"]) {
        let own = get(v);
        let (to, f) = if own.0.is_zero() { dflt } else { own };
        for p in [d, d + U256::from(1), U256::from(999_999_999_999u64)] {
            expect(
                c,
                0,
                "royaltyInfo(uint256,uint256)(address,uint256)",
                &[k.clone(), vec![p]],
                Ok(vec![vec![to], vec![p * f / d]]),
            )
            .map_err(|e| ("royalty", e))?;
        }
    }
    Ok(())
}

pub static SUITE721: Domain = Domain {
    name: "suite721",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Suite721), true));
        c.deploy(1, Code::Mock(mocks::actor));
        poke_str(a, slot(0), &o.args[3]);
        poke_str(a, slot(1), &o.args[4]);
        poke_str(a, slot(2), &o.args[2]);
        let s = abi::parse("construct(address,uint96)()");
        let data = abi::calldata(&s, &o.args[..2], &|v| c.addr(v));
        host::call(c.addr(U256::from(1)), a, U256::ZERO, &data, false).expect("construction");
    },
    custom: no_custom,
    proj: &[proj("coll.has", "hasRole(bytes32,address)(bool)"), proj("coll.paused", "paused()(bool)")],
    extra: |c, _, st| {
        let nft = itf::var(st, "nft");
        super::nft::ledger(c, 0, nft)?;
        super::nft::lists(c, nft)?;
        for (var, sig) in [("name", "name()(string)"), ("symbol", "symbol()(string)"), ("base", "baseUri()(string)")] {
            expect(c, 0, sig, &[], Ok(vec![itf::list(itf::var(st, var))])).map_err(|e| (var, e))?;
        }
        let alive: Vec<U256> = itf::map(&nft["owner"])
            .iter()
            .filter(|x| !itf::int(x.1).is_zero())
            .map(|x| x.0[0])
            .collect();
        for (k, v) in itf::map(itf::var(st, "shown")) {
            let want = if alive.contains(&k[0]) {
                Ok(vec![itf::list(v)])
            } else {
                Err(("ERC721NonexistentToken(uint256)", vec![k.clone()]))
            };
            expect(c, 0, "tokenUri(uint256)(string)", &[k], want).map_err(|e| ("uri", e))?;
        }
        royalties(c, itf::var(st, "coll"))
    },
};

// -------------------------------------------------------------- multi-token
#[derive(SolidityError, Debug)]
pub enum Error1155 {
    Erc1155(erc1155::Error),
    Royalty(erc2981::Error),
    Pausable(pausable::Error),
    Ownable(ownable::Error),
}
type R1155 = Result<(), Error1155>;

#[storage]
pub struct Suite1155 {
    #[borrow]
    ownable: Ownable2Step,
    metadata: Erc1155MetadataUri,
    uris: Erc1155UriStorage,
    #[borrow]
    tokens: Erc1155Supply,
    #[borrow]
    royalty: Erc2981,
    #[borrow]
    pausable: Pausable,
}
unsafe impl TopLevelStorage for Suite1155 {}
impl Suite1155 {
    fn making(&self) -> R1155 {
        self.pausable.when_not_paused()?;
        Ok(self.ownable.only_owner()?)
    }
    fn allowed(&self, from: Address) -> R1155 {
        self.pausable.when_not_paused()?;
        let operator = msg::sender();
        if from != operator && !self.tokens.is_approved_for_all(from, operator) {
            return Err(erc1155::Error::MissingApprovalForAll(
                erc1155::ERC1155MissingApprovalForAll { operator, owner: from },
            ))?;
        }
        Ok(())
    }
}
#[public]
#[inherit(Erc1155Supply, Erc2981, Pausable, Ownable2Step)]
impl Suite1155 {
    fn construct(&mut self, denominator: U96) {
        self.royalty.fee_denominator.set(denominator);
    }
    fn mint(&mut self, to: Address, id: U256, v: U256, data: Bytes) -> R1155 {
        self.making()?;
        Ok(self.tokens._mint(to, id, v, &data)?)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>, data: Bytes) -> R1155 {
        self.making()?;
        Ok(self.tokens._mint_batch(to, ids, vs, &data)?)
    }
    fn burn(&mut self, from: Address, id: U256, v: U256) -> R1155 {
        self.allowed(from)?;
        Ok(self.tokens._burn(from, id, v)?)
    }
    fn burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> R1155 {
        self.allowed(from)?;
        Ok(self.tokens._burn_batch(from, ids, vs)?)
    }
    fn safe_transfer_from(&mut self, from: Address, to: Address, id: U256, v: U256, data: Bytes) -> R1155 {
        self.pausable.when_not_paused()?;
        Ok(self.tokens.safe_transfer_from(from, to, id, v, data)?)
    }
    fn safe_batch_transfer_from(
        &mut self,
        from: Address,
        to: Address,
        ids: Vec<U256>,
        vs: Vec<U256>,
        data: Bytes,
    ) -> R1155 {
        self.pausable.when_not_paused()?;
        Ok(self.tokens.safe_batch_transfer_from(from, to, ids, vs, data)?)
    }
    #[selector(name = "supplyOf")]
    fn supply_of(&self, id: U256) -> U256 {
        IErc1155Supply::total_supply(&self.tokens, id)
    }
    #[selector(name = "supplyAll")]
    fn supply_all(&self) -> U256 {
        IErc1155Supply::total_supply_all(&self.tokens)
    }
    fn uri(&self, id: U256) -> String {
        self.uris.uri(id, &self.metadata)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) -> R1155 {
        self.ownable.only_owner()?;
        self.uris.set_token_uri(id, uri, &self.metadata);
        Ok(())
    }
    fn set_base_uri(&mut self, uri: String) -> R1155 {
        self.ownable.only_owner()?;
        self.uris.set_base_uri(uri);
        Ok(())
    }
    fn set_default_royalty(&mut self, to: Address, f: U96) -> R1155 {
        self.ownable.only_owner()?;
        Ok(self.royalty._set_default_royalty(to, f)?)
    }
    fn set_token_royalty(&mut self, id: U256, to: Address, f: U96) -> R1155 {
        self.ownable.only_owner()?;
        Ok(self.royalty._set_token_royalty(id, to, f)?)
    }
    fn reset_token_royalty(&mut self, id: U256) -> R1155 {
        self.ownable.only_owner()?;
        self.royalty._reset_token_royalty(id);
        Ok(())
    }
    fn pause(&mut self) -> R1155 {
        self.ownable.only_owner()?;
        Ok(self.pausable.pause()?)
    }
    fn unpause(&mut self) -> R1155 {
        self.ownable.only_owner()?;
        Ok(self.pausable.unpause()?)
    }
}

pub static SUITE1155: Domain = Domain {
    name: "suite1155",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Suite1155), true));
        c.deploy(1, Code::Mock(mocks::actor));
        poke(a, slot(0), addr_word(c.addr(o.args[0][0])));
        poke_str(a, slot(slots::<Ownable2Step>()), &o.args[2]);
        let s = abi::parse("construct(uint96)()");
        let data = abi::calldata(&s, &o.args[1..2], &|v| c.addr(v));
        host::call(c.addr(U256::from(1)), a, U256::ZERO, &data, false).expect("construction");
    },
    custom: no_custom,
    proj: &[
        proj("kit.paused", "paused()(bool)"),
        proj("kit.owner", "owner()(address)"),
        proj("kit.pending", "pendingOwner()(address)"),
        proj("ml.sup", "supplyOf(uint256)(uint256)"),
        proj("ml.total", "supplyAll()(uint256)"),
    ],
    extra: |c, _, st| {
        super::multi::balances(c, st)?;
        for (k, v) in itf::map(itf::var(st, "shown")) {
            expect(c, 0, "uri(uint256)(string)", &[k], Ok(vec![itf::list(v)])).map_err(|e| ("uri", e))?;
        }
        royalties(c, itf::var(st, "kit"))
    },
};
