//! ERC-20 extensions: flash mint, wrapper, vault, SafeERC20.
use alloy_primitives::{Address, U256, U8};
use openzeppelin_stylus::token::erc20::{
    self,
    extensions::{
        erc4626, flash_mint, wrapper, Erc20FlashMint, Erc20Wrapper, Erc4626,
        IErc20Burnable, IErc20Wrapper, IErc3156FlashLender, IErc4626,
    },
    utils::SafeErc20,
    Erc20,
};
use serde_json::Value;
use stylus_sdk::{abi::Bytes, prelude::*};

use super::*;
use crate::{mocks, router};

const ERC20_SLOTS: u64 = <Erc20 as StorageType>::REQUIRED_SLOTS as u64;

// --------------------------------------------------------------- flash mint
#[storage]
pub struct FlashH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    flash: Erc20FlashMint,
}
unsafe impl TopLevelStorage for FlashH {}

#[public]
#[inherit(Erc20)]
impl FlashH {
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_fee(&self, token: Address, value: U256) -> Result<U256, flash_mint::Error> {
        self.flash.flash_fee(token, value)
    }
    fn flash_loan(
        &mut self,
        receiver: Address,
        token: Address,
        value: U256,
        data: Bytes,
    ) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, value, data, &mut self.erc20)
    }
    fn mint(&mut self, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, value)
    }
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
}

pub static FLASH: Domain = Domain {
    name: "flash",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        // Built with the `reentrant` feature, as flash lending requires.
        let a = c.deploy(0, Code::Stylus(router!(FlashH), true));
        c.deploy(1, Code::Mock(mocks::actor));
        poke(a, slot(ERC20_SLOTS), o.args[0][0]);
        poke(a, slot(ERC20_SLOTS + 1), addr_word(c.addr(o.args[1][0])));
    },
    custom: no_custom,
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
    ],
    extra: no_extra,
};

/// `!mode(uint256)()`: how the mock token at `obs.at` answers from now on.
pub fn set_mode(c: &mut Ctx, o: &Obs) -> Option<Out> {
    match o.op.as_str() {
        "!mode(uint256)()" => {
            let a = c.contract(o.at);
            with(|w| w.cfg.insert((a, "mode"), o.args[0][0]));
            None
        }
        _ => no_custom(c, o),
    }
}

const UND_PROJ_BAL: Proj = Proj { at: 1, ..proj("und.bal", "balanceOf(address)(uint256)") };
const UND_PROJ_ALLOW: Proj = Proj { at: 1, ..proj("und.allow", "allowance(address,address)(uint256)") };

// ---------------------------------------------------------------- SafeERC20
#[storage]
pub struct SafeH {
    #[borrow]
    safe: SafeErc20,
}
unsafe impl TopLevelStorage for SafeH {}
#[public]
#[inherit(SafeErc20)]
impl SafeH {}

pub static SAFE: Domain = Domain {
    name: "safeerc20",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(SafeH), false));
        c.deploy(1, Code::Mock(mocks::token));
    },
    custom: set_mode,
    proj: &[UND_PROJ_BAL, UND_PROJ_ALLOW],
    extra: no_extra,
};

// ------------------------------------------------------------------ wrapper
#[storage]
pub struct WrapH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    wrapper: Erc20Wrapper,
}
unsafe impl TopLevelStorage for WrapH {}
#[public]
#[inherit(Erc20)]
impl WrapH {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn decimals(&self) -> U8 {
        self.wrapper.decimals()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, &mut self.erc20)
    }
}

pub static WRAPPER: Domain = Domain {
    name: "wrapper20",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(WrapH), false));
        let u = c.deploy(1, Code::Mock(mocks::token));
        poke(a, slot(ERC20_SLOTS), addr_word(u) | (o.args[0][0] << 160));
    },
    custom: set_mode,
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
        UND_PROJ_BAL,
        UND_PROJ_ALLOW,
    ],
    extra: no_extra,
};

// -------------------------------------------------------------------- vault
#[storage]
pub struct VaultH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    vault: Erc4626,
}
unsafe impl TopLevelStorage for VaultH {}
#[public]
#[inherit(Erc20)]
impl VaultH {
    fn decimals(&self) -> U8 {
        self.vault.decimals()
    }
    fn asset(&self) -> Address {
        self.vault.asset()
    }
    fn total_assets(&mut self) -> Result<U256, erc4626::Error> {
        self.vault.total_assets()
    }
    fn convert_to_shares(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.convert_to_shares(v, &self.erc20)
    }
    fn convert_to_assets(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.convert_to_assets(v, &self.erc20)
    }
    fn max_deposit(&self, a: Address) -> U256 {
        self.vault.max_deposit(a)
    }
    fn max_mint(&self, a: Address) -> U256 {
        self.vault.max_mint(a)
    }
    fn max_withdraw(&mut self, a: Address) -> Result<U256, erc4626::Error> {
        self.vault.max_withdraw(a, &self.erc20)
    }
    fn max_redeem(&self, a: Address) -> U256 {
        self.vault.max_redeem(a, &self.erc20)
    }
    fn preview_deposit(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.preview_deposit(v, &self.erc20)
    }
    fn preview_mint(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.preview_mint(v, &self.erc20)
    }
    fn preview_withdraw(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.preview_withdraw(v, &self.erc20)
    }
    fn preview_redeem(&mut self, v: U256) -> Result<U256, erc4626::Error> {
        self.vault.preview_redeem(v, &self.erc20)
    }
    fn deposit(&mut self, v: U256, to: Address) -> Result<U256, erc4626::Error> {
        self.vault.deposit(v, to, &mut self.erc20)
    }
    fn mint(&mut self, v: U256, to: Address) -> Result<U256, erc4626::Error> {
        self.vault.mint(v, to, &mut self.erc20)
    }
    fn withdraw(&mut self, v: U256, to: Address, owner: Address) -> Result<U256, erc4626::Error> {
        self.vault.withdraw(v, to, owner, &mut self.erc20)
    }
    fn redeem(&mut self, v: U256, to: Address, owner: Address) -> Result<U256, erc4626::Error> {
        self.vault.redeem(v, to, owner, &mut self.erc20)
    }
}

pub static VAULT: Domain = Domain {
    name: "vault",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(VaultH), false));
        let u = c.deploy(1, Code::Mock(mocks::token));
        poke(
            a,
            slot(ERC20_SLOTS),
            addr_word(u) | (o.args[1][0] << 160) | (o.args[0][0] << 168),
        );
    },
    custom: set_mode,
    proj: &[
        proj("tok.bal", "balanceOf(address)(uint256)"),
        proj("tok.allow", "allowance(address,address)(uint256)"),
        proj("tok.supply", "totalSupply()(uint256)"),
        UND_PROJ_BAL,
        UND_PROJ_ALLOW,
    ],
    extra: no_extra,
};
