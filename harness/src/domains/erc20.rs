use alloy_primitives::{Address, U256};
use openzeppelin_stylus::token::erc20::{
    self, extensions::IErc20Burnable, Erc20,
};
use serde_json::Value;
use stylus_sdk::prelude::*;

use super::*;
use crate::router;

#[storage]
pub struct Erc20H {
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Erc20H {}

#[public]
#[inherit(Erc20)]
impl Erc20H {
    fn mint(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(account, value)
    }
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
    fn force_update(&mut self, from: Address, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._update(from, to, value)
    }
    fn force_burn(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(account, value)
    }
    fn spend_allowance(&mut self, o: Address, s: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._spend_allowance(o, s, value)
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn_from(account, value)
    }
}

fn setup(c: &mut Ctx, _: &Obs, _: &Value) {
    c.deploy(0, Code::Stylus(router!(Erc20H), false));
}

pub static ERC20: Domain = Domain {
    name: "erc20",
    setup,
    custom: no_custom,
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
    ],
    extra: no_extra,
};
