//! Metadata: names, symbols and token URIs.
use alloc::string::String;

use alloy_primitives::{Address, U256};
use openzeppelin_stylus::token::{
    erc1155::extensions::{Erc1155MetadataUri, Erc1155UriStorage},
    erc721::{
        self,
        extensions::{Erc721Metadata, Erc721UriStorage},
        Erc721,
    },
};
use serde_json::Value;
use stylus_sdk::prelude::*;

use super::*;
use crate::router;

#[storage]
pub struct Uri721H {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    metadata: Erc721Metadata,
    uris: Erc721UriStorage,
}
unsafe impl TopLevelStorage for Uri721H {}
#[public]
#[inherit(Erc721, Erc721Metadata)]
impl Uri721H {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) {
        self.uris._set_token_uri(id, uri);
    }
    fn token_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.uris.token_uri(id, &self.erc721, &self.metadata)
    }
    fn plain_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.metadata.token_uri(id, &self.erc721)
    }
    fn base_uri(&self) -> String {
        self.metadata.base_uri()
    }
}

fn bytes(v: &Value) -> Vec<U256> {
    itf::list(v)
}

pub static URI721: Domain = Domain {
    name: "uri721",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Uri721H), false));
        // ERC-721 takes four slots; then name, symbol, base.
        poke_str(a, slot(4), &o.args[1]);
        poke_str(a, slot(5), &o.args[2]);
        poke_str(a, slot(6), &o.args[0]);
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let alive: Vec<U256> =
            itf::set(itf::var(st, "alive")).into_iter().map(itf::int).collect();
        for (var, sig) in [("name", "name()(string)"), ("symbol", "symbol()(string)"), ("base", "baseUri()(string)")] {
            expect(c, 0, sig, &[], Ok(vec![bytes(itf::var(st, var))])).map_err(|e| (var, e))?;
        }
        for (var, sig) in [("shown", "tokenUri(uint256)(string)"), ("plain", "plainUri(uint256)(string)")] {
            for (k, v) in itf::map(itf::var(st, var)) {
                let want = if alive.contains(&k[0]) {
                    Ok(vec![bytes(v)])
                } else {
                    Err(("ERC721NonexistentToken(uint256)", vec![k.clone()]))
                };
                expect(c, 0, sig, &[k], want).map_err(|e| (var, e))?;
            }
        }
        Ok(())
    },
};

#[storage]
pub struct Uri1155H {
    metadata: Erc1155MetadataUri,
    uris: Erc1155UriStorage,
}
unsafe impl TopLevelStorage for Uri1155H {}
#[public]
impl Uri1155H {
    fn uri(&self, id: U256) -> String {
        self.uris.uri(id, &self.metadata)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) {
        self.uris.set_token_uri(id, uri, &self.metadata);
    }
    fn set_base_uri(&mut self, uri: String) {
        self.uris.set_base_uri(uri);
    }
    fn common_uri(&self, id: U256) -> String {
        use openzeppelin_stylus::token::erc1155::extensions::IErc1155MetadataUri;
        self.metadata.uri(id)
    }
}

pub static URI1155: Domain = Domain {
    name: "uri1155",
    setup: |c: &mut Ctx, o: &Obs, _: &Value| {
        let a = c.deploy(0, Code::Stylus(router!(Uri1155H), false));
        poke_str(a, slot(0), &o.args[0]);
    },
    custom: no_custom,
    proj: &[],
    extra: |c, _, st| {
        let common = bytes(itf::var(st, "common"));
        for (k, v) in itf::map(itf::var(st, "shown")) {
            expect(c, 0, "uri(uint256)(string)", &[k.clone()], Ok(vec![bytes(v)]))
                .map_err(|e| ("shown", e))?;
            expect(c, 0, "commonUri(uint256)(string)", &[k], Ok(vec![common.clone()]))
                .map_err(|e| ("common", e))?;
        }
        Ok(())
    },
};
