//! The vesting wallet.
use alloy_primitives::U256;
use openzeppelin_stylus::finance::vesting_wallet::VestingWallet;
use serde_json::Value;
use stylus_sdk::prelude::*;

use super::*;
use crate::{host, mocks, router};

#[storage]
pub struct VestingH {
    #[borrow]
    vesting: VestingWallet,
}
unsafe impl TopLevelStorage for VestingH {}
#[public]
#[inherit(VestingWallet)]
impl VestingH {}

pub static VESTING: Domain = Domain {
    name: "vesting",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(VestingH), true));
        c.deploy(1, Code::Mock(mocks::token));
        c.deploy(2, Code::Mock(mocks::token));
        c.deploy(3, Code::Mock(mocks::actor));
        poke(a, slot(0), addr_word(c.addr(o.args[2][0])));
        poke(a, slot(3), o.args[0][0] | (o.args[1][0] << 64));
        with(|w| w.timestamp = o.args[3][0].try_into().unwrap());
    },
    custom: |c, o| {
        let a = c.contract(U256::ZERO);
        match o.op.as_str() {
            "!time(uint256)()" => with(|w| w.timestamp = o.args[0][0].try_into().unwrap()),
            "!eth(uint256)()" => with(|w| *w.st.eth.entry(a).or_default() += o.args[0][0]),
            "!mode(uint256)()" => {
                let t = c.contract(U256::from(1));
                with(|w| w.cfg.insert((t, "mode"), o.args[0][0]));
            }
            op => {
                let s = abi::parse(op.trim_start_matches('!'));
                let args = vec![vec![U256::from(100)], o.args[1].clone()];
                let data = abi::calldata(&s, &args, &|v| c.addr(v));
                host::call(c.addr(U256::from(1)), c.addr(o.args[0][0]), U256::ZERO, &data, false)
                    .expect("mock token");
            }
        }
        None
    },
    proj: &[
        proj("owner", "owner()(address)"),
        proj("start", "start()(uint256)"),
        proj("dur", "duration()(uint256)"),
        proj("rel", "released()(uint256)"),
        proj("relT", "released(address)(uint256)"),
    ],
    extra: |c, _, st| {
        for (k, v) in itf::map(itf::var(st, "eth")) {
            let got = with(|w| w.st.eth.get(&c.addr(k[0])).copied().unwrap_or_default());
            if got != itf::int(v) {
                return Err(("eth", format!("account {} holds {got} wei, specified {}", k[0], itf::int(v))));
            }
        }
        for (k, v) in itf::map(itf::var(st, "und")) {
            let at: u64 = (k[0] - U256::from(100)).to();
            for (who, b) in itf::map(&v["bal"]) {
                expect(c, at, "balanceOf(address)(uint256)", &[who], Ok(vec![vec![itf::int(b)]]))
                    .map_err(|e| ("und", e))?;
            }
        }
        Ok(())
    },
};
