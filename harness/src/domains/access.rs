//! Ownership, roles, pausing, and royalties.
use alloy_primitives::{aliases::U96, Address, B256, U256};
use openzeppelin_stylus::{
    access::{
        control::{self, AccessControl},
        ownable::{self, Ownable},
        ownable_two_step::Ownable2Step,
    },
    token::{
        common::erc2981::{self, Erc2981},
        erc20::extensions::Capped,
    },
    utils::pausable::{self, Pausable},
};
use serde_json::Value;
use stylus_sdk::{prelude::*, storage::StorageU256};

use super::*;
use crate::{host, router};

fn bump(c: &mut StorageU256) {
    let v = c.get() + U256::from(1);
    c.set(v);
}

// ------------------------------------------------------------------ ownable
#[storage]
pub struct OwnableH {
    #[borrow]
    ownable: Ownable,
    hits: StorageU256,
}
unsafe impl TopLevelStorage for OwnableH {}
#[public]
#[inherit(Ownable)]
impl OwnableH {
    fn restricted(&mut self) -> Result<(), ownable::Error> {
        self.ownable.only_owner()?;
        bump(&mut self.hits);
        Ok(())
    }
    fn assign(&mut self, to: Address) {
        self.ownable._transfer_ownership(to);
    }
    fn hits(&self) -> U256 {
        self.hits.get()
    }
}
pub static OWNABLE: Domain = Domain {
    name: "ownable",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(OwnableH), false));
        poke(a, slot(0), addr_word(c.addr(o.args[0][0])));
    },
    custom: no_custom,
    proj: &[proj("owner", "owner()(address)"), proj("hits", "hits()(uint256)")],
    extra: no_extra,
};

#[storage]
pub struct Ownable2H {
    #[borrow]
    ownable: Ownable2Step,
    hits: StorageU256,
}
unsafe impl TopLevelStorage for Ownable2H {}
#[public]
#[inherit(Ownable2Step)]
impl Ownable2H {
    fn restricted(&mut self) -> Result<(), ownable::Error> {
        self.ownable.only_owner()?;
        bump(&mut self.hits);
        Ok(())
    }
    fn hits(&self) -> U256 {
        self.hits.get()
    }
}
pub static OWNABLE2: Domain = Domain {
    name: "ownable2",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Ownable2H), false));
        poke(a, slot(0), addr_word(c.addr(o.args[0][0])));
    },
    custom: no_custom,
    proj: &[
        proj("owner", "owner()(address)"),
        proj("pending", "pendingOwner()(address)"),
        proj("hits", "hits()(uint256)"),
    ],
    extra: no_extra,
};

// ------------------------------------------------------------------ control
#[storage]
pub struct ControlH {
    #[borrow]
    control: AccessControl,
    hits: StorageU256,
}
unsafe impl TopLevelStorage for ControlH {}
#[public]
#[inherit(AccessControl)]
impl ControlH {
    fn restricted(&mut self, role: B256) -> Result<(), control::Error> {
        use openzeppelin_stylus::access::control::IAccessControl;
        self.control.only_role(role)?;
        bump(&mut self.hits);
        Ok(())
    }
    fn check_role(&self, role: B256, account: Address) -> Result<(), control::Error> {
        self.control._check_role(role, account)
    }
    fn force_grant(&mut self, role: B256, account: Address) -> bool {
        self.control._grant_role(role, account)
    }
    fn force_revoke(&mut self, role: B256, account: Address) -> bool {
        self.control._revoke_role(role, account)
    }
    fn set_role_admin(&mut self, role: B256, admin: B256) {
        self.control._set_role_admin(role, admin);
    }
    fn hits(&self) -> U256 {
        self.hits.get()
    }
}
pub static CONTROL: Domain = Domain {
    name: "control",
    setup: |c: &mut Ctx, _: &Obs, _: &Value| {
        c.deploy(0, Code::Stylus(router!(ControlH), false));
    },
    custom: no_custom,
    proj: &[
        proj("has", "hasRole(bytes32,address)(bool)"),
        proj("adminOf", "getRoleAdmin(bytes32)(bytes32)"),
        proj("hits", "hits()(uint256)"),
    ],
    extra: no_extra,
};

// ----------------------------------------------------------------- pausable
#[storage]
pub struct PausableH {
    #[borrow]
    pausable: Pausable,
    #[borrow]
    capped: Capped,
    running: StorageU256,
    halted: StorageU256,
}
unsafe impl TopLevelStorage for PausableH {}
#[public]
#[inherit(Pausable, Capped)]
impl PausableH {
    fn pause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.pause()
    }
    fn unpause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.unpause()
    }
    fn work(&mut self) -> Result<(), pausable::Error> {
        self.pausable.when_not_paused()?;
        bump(&mut self.running);
        Ok(())
    }
    fn rescue(&mut self) -> Result<(), pausable::Error> {
        self.pausable.when_paused()?;
        bump(&mut self.halted);
        Ok(())
    }
    fn running(&self) -> U256 {
        self.running.get()
    }
    fn halted(&self) -> U256 {
        self.halted.get()
    }
}
pub static PAUSABLE: Domain = Domain {
    name: "pausable",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(PausableH), false));
        poke(a, slot(1), o.args[0][0]);
    },
    custom: no_custom,
    proj: &[
        proj("paused", "paused()(bool)"),
        proj("running", "running()(uint256)"),
        proj("halted", "halted()(uint256)"),
        proj("cap", "cap()(uint256)"),
    ],
    extra: no_extra,
};

// ------------------------------------------------------------------ royalty
#[storage]
pub struct RoyaltyH {
    #[borrow]
    erc2981: Erc2981,
}
unsafe impl TopLevelStorage for RoyaltyH {}
#[public]
#[inherit(Erc2981)]
impl RoyaltyH {
    fn set_denominator(&mut self, d: U96) {
        self.erc2981.fee_denominator.set(d);
    }
    fn denominator(&self) -> U96 {
        self.erc2981._fee_denominator()
    }
    fn set_default_royalty(&mut self, to: Address, f: U96) -> Result<(), erc2981::Error> {
        self.erc2981._set_default_royalty(to, f)
    }
    fn delete_default_royalty(&mut self) {
        self.erc2981._delete_default_royalty();
    }
    fn set_token_royalty(&mut self, id: U256, to: Address, f: U96) -> Result<(), erc2981::Error> {
        self.erc2981._set_token_royalty(id, to, f)
    }
    fn reset_token_royalty(&mut self, id: U256) {
        self.erc2981._reset_token_royalty(id);
    }
}
pub static ROYALTY: Domain = Domain {
    name: "royalty",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(RoyaltyH), false));
        let s = abi::parse("setDenominator(uint96)()");
        let data = abi::calldata(&s, &o.args, &|v| c.addr(v));
        host::call(c.addr(U256::from(1)), a, U256::ZERO, &data, false).expect("denominator");
    },
    custom: no_custom,
    proj: &[proj("denom", "denominator()(uint96)")],
    // Every token's royalty, at the price equal to the denominator (which
    // reads back receiver and fraction) and at one with a remainder.
    extra: |c, _, st| {
        let d = itf::int(itf::var(st, "denom"));
        let get = |v: &Value| (itf::int(&v["to_"]), itf::int(&v["frac"]));
        let dflt = get(itf::var(st, "dflt"));
        for (k, v) in itf::map(itf::var(st, "own")) {
            let own = get(v);
            let (to, f) = if own.0.is_zero() { dflt } else { own };
            for p in [d, d + U256::from(1), U256::from(1), U256::from(999_999_999_999u64)] {
                let want = if d.is_zero() { Err(("#empty", vec![])) } else { Ok(vec![vec![to], vec![p * f / d]]) };
                expect(c, 0, "royaltyInfo(uint256,uint256)(address,uint256)", &[k.clone(), vec![p]], want)
                    .map_err(|e| ("own", e))?;
            }
        }
        Ok(())
    },
};
