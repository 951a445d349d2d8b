//! ERC-1155 and its supply extension.
use alloc::string::String;

use alloy_primitives::{Address, U256};
use openzeppelin_stylus::token::erc1155::{
    self,
    extensions::{Erc1155Supply, IErc1155Burnable, IErc1155Supply},
    Erc1155,
};
use serde_json::Value;
use stylus_sdk::{abi::Bytes, prelude::*};

use super::*;
use crate::{mocks, router};

type R = Result<(), erc1155::Error>;

#[storage]
pub struct Erc1155H {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for Erc1155H {}
#[public]
#[inherit(Erc1155)]
impl Erc1155H {
    fn mint(&mut self, to: Address, id: U256, v: U256, data: Bytes) -> R {
        self.erc1155._mint(to, id, v, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>, data: Bytes) -> R {
        self.erc1155._mint_batch(to, ids, vs, &data)
    }
    fn burn(&mut self, from: Address, id: U256, v: U256) -> R {
        self.erc1155.burn(from, id, v)
    }
    fn burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> R {
        self.erc1155.burn_batch(from, ids, vs)
    }
    fn force_burn(&mut self, from: Address, id: U256, v: U256) -> R {
        self.erc1155._burn(from, id, v)
    }
    fn force_burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> R {
        self.erc1155._burn_batch(from, ids, vs)
    }
}

#[storage]
pub struct SupplyH {
    #[borrow]
    inner: Erc1155Supply,
}
unsafe impl TopLevelStorage for SupplyH {}
#[public]
#[inherit(Erc1155Supply)]
impl SupplyH {
    fn mint(&mut self, to: Address, id: U256, v: U256, data: Bytes) -> R {
        self.inner._mint(to, id, v, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, vs: Vec<U256>, data: Bytes) -> R {
        self.inner._mint_batch(to, ids, vs, &data)
    }
    fn force_burn(&mut self, from: Address, id: U256, v: U256) -> R {
        self.inner._burn(from, id, v)
    }
    fn force_burn_batch(&mut self, from: Address, ids: Vec<U256>, vs: Vec<U256>) -> R {
        self.inner._burn_batch(from, ids, vs)
    }
    #[selector(name = "supplyOf")]
    fn supply_of(&self, id: U256) -> U256 {
        IErc1155Supply::total_supply(&self.inner, id)
    }
    #[selector(name = "supplyAll")]
    fn supply_all(&self) -> U256 {
        IErc1155Supply::total_supply_all(&self.inner)
    }
    fn exists(&self, id: U256) -> bool {
        IErc1155Supply::exists(&self.inner, id)
    }
}

pub fn balances(c: &Ctx, st: &Value) -> Result<(), (&'static str, String)> {
    let ml = itf::var(st, "ml");
    for (k, v) in itf::map(&ml["bal"]) {
        expect(
            c,
            0,
            "balanceOf(address,uint256)(uint256)",
            &[vec![k[1]], vec![k[0]]],
            Ok(vec![vec![itf::int(v)]]),
        )
        .map_err(|e| ("bal", e))?;
    }
    for (k, v) in itf::map(&ml["oper"]) {
        expect(
            c,
            0,
            "isApprovedForAll(address,address)(bool)",
            &[vec![k[0]], vec![k[1]]],
            Ok(vec![vec![itf::int(v)]]),
        )
        .map_err(|e| ("oper", e))?;
    }
    Ok(())
}

pub static ERC1155: Domain = Domain {
    name: "erc1155",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(Erc1155H), true));
        c.deploy(1, Code::Mock(mocks::actor));
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| balances(c, st),
};

pub static SUPPLY: Domain = Domain {
    name: "erc1155supply",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(SupplyH), true));
        c.deploy(1, Code::Mock(mocks::actor));
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        balances(c, st)?;
        let ml = itf::var(st, "ml");
        for (k, v) in itf::map(&ml["sup"]) {
            let v = itf::int(v);
            expect(c, 0, "supplyOf(uint256)(uint256)", &[k.clone()], Ok(vec![vec![v]]))
                .map_err(|e| ("sup", e))?;
            expect(c, 0, "exists(uint256)(bool)", &[k], Ok(vec![vec![U256::from(!v.is_zero())]]))
                .map_err(|e| ("exists", e))?;
        }
        expect(c, 0, "supplyAll()(uint256)", &[], Ok(vec![vec![itf::int(&ml["total"])]]))
            .map_err(|e| ("total", e))
    },
};
