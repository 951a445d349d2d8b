"""What decides each property.

runs: traces of these specifications are generated and replayed into the code.
  spec    Quint file under spec/ (module `main` unless given), also the replay domain
  inv     invariant evaluated by the simulator on every generated state
  facets  which differences between specification and code count for the property
          (outcome|ret|err|ev:<function>, st:<variable>; `*` suffix; `-` excludes)
  quick / thorough   (processes, traces per process, steps per trace)
  wasm    also replay into the WebAssembly build (the production target; default for the crypto library)
tlc: (spec, module, invariant) exhaustively checked; see tools/export_tla.py
"""
Q, T = (8, 40, 40), (8, 400, 60)

def run(spec, facets=(), inv="safety", main="main", step="step", q=Q, t=T, crate="harness", init="init", domain=None, wasm=None):
    return dict(wasm=crate == "crypto-harness" if wasm is None else wasm,
                spec=spec, facets=list(facets), inv=inv, main=main, step=step, quick=q, thorough=t,
                crate=crate, init=init, domain=domain or spec)

CHECKS = {}

def check(pid, runs, tlc=(), tlc_thorough=(), note=""):
    CHECKS[pid] = dict(runs=runs, tlc=list(tlc), tlc_thorough=list(tlc_thorough), note=note)

check("C01", [run("erc20", ["-st:tok.allow", "-err:approve", "-ev:approve", "-ret:approve", "-outcome:approve", "-*:spendAllowance"])],
      [("erc20", "small", "safety")])
check("C02", [run("erc20", ["outcome:approve", "ret:approve", "err:approve", "ev:approve", "outcome:transferFrom",
                            "err:transferFrom", "outcome:burnFrom", "err:burnFrom", "*:spendAllowance", "st:tok.allow", "st:tok.bal"])],
      [("erc20", "small", "safety")])
check("C03", [run("flash")], [("flash", "small", "safety")])
check("C04", [run("wrapper20")], [("wrapper20", "small", "safety")])
check("C05", [run("vault")], [("vault", "small", "safety")])
check("C06", [run("safeerc20")], [("safeerc20", "small", "safety")])
check("C07", [run("permit")], [("permit", "small", "safety")])
check("C08", [run("nonces")], [("nonces", "small", "safety")])
check("C30", [run("ecdsa", t=(8, 200, 60))], [("ecdsa", "small", "safety")])
check("C31", [run("eip712")], [("eip712", "small", "safety")])
NFT = [("erc721", "small", "safety")]
check("C09", [run("erc721", ["-*:approve", "-*:setApprovalForAll", "-*:forceApprove", "-*:forceSetAll", "-*:isAuthorized", "-*:checkAuthorized", "-st:appr", "-st:oper"])], NFT)
check("C10", [run("erc721", ["*:approve", "*:setApprovalForAll", "*:forceApprove", "*:forceSetAll", "*:isAuthorized", "*:checkAuthorized", "outcome:*", "err:*", "ev:*", "st:*"])], NFT)
check("C11", [run("erc721", ["*:safeTransferFrom", "*:safeMint", "*:forceSafeTransfer", "st:owner", "st:bal"])], NFT)
check("C12", [run("erc721", [], main="enumerable", domain="erc721enum")], NFT)
check("C13", [run("consecutive")], [("consecutive", "small", "safety")])
check("C14", [run("wrapper721")], [("wrapper721", "small", "safety")])
check("C15", [run("uri721")], [("uri721", "small", "safety")])
check("C20", [run("uri1155")], [("uri1155", "small", "safety")])
MT = [("erc1155", "small", "safety")]
check("C16", [run("erc1155", ["-*:setApprovalForAll", "-st:oper"])], MT)
check("C17", [run("erc1155", ["*:setApprovalForAll", "outcome:*", "err:*", "st:*"])], MT)
check("C18", [run("erc1155", ["*:mint", "*:mintBatch", "*:safeTransferFrom", "*:safeBatchTransferFrom", "*:burn*", "*:forceBurn*", "st:bal"])], MT)
check("C19", [run("erc1155", [], main="supply", domain="erc1155supply")], MT)
check("C21", [run("royalty")], [("royalty", "small", "safety")])
check("C22", [run("ownable")], [("ownable", "small", "safety")])
check("C23", [run("ownable2")], [("ownable2", "small", "safety")])
check("C24", [run("control")], [("control", "small", "safety")])
check("C26", [run("pausable")], [("pausable", "small", "safety")])
check("C25", [run("vesting")], [("vesting", "small", "safety")], [("vesting", "deep", "safety")])
check("C27", [run("checkpoints", t=(8, 200, 60))], [("checkpoints", "small", "safety")])
check("C28", [run("bitmap")], [("bitmap", "small", "safety")])
check("C29", [run("math")], [("math", "small", "safety")])
check("C32", [run("erc165"), run("erc165", step="sweep", q=(1, 1, 1), t=(1, 1, 1))], [("erc165", "small", "safety")])
check("C40", [run("suite20")], [("suite20", "small", "safety")])
check("C41", [run("suite721")], [("suite721", "small", "safety")])
check("C42", [run("suite1155")], [("suite1155", "small", "safety")])
check("C35", [run("field", crate="crypto-harness", q=(8, 60, 40), t=(8, 600, 60))], [("field", "small", "safety")])
check("C37", [run("uint", crate="crypto-harness", q=(8, 60, 40), t=(8, 600, 60))], [("uint", "small", "safety")])
check("C33", [run("merkle", ["*:verify", "*:make", "state:*"], crate="crypto-harness", q=(8, 60, 40), t=(8, 600, 60))], [("merkle", "small", "safety")])
check("C34", [run("merkle", ["*:multi", "*:make", "state:*"], crate="crypto-harness", q=(8, 60, 40), t=(8, 600, 60))], [("merkle", "small", "safety")])
check("C39", [run("keccak", crate="crypto-harness", q=(8, 60, 40), t=(8, 600, 60))], [("keccak", "small", "safety")])
check("C38", [run("poseidon", crate="crypto-harness", q=(8, 80, 40), t=(8, 800, 60))], [("poseidon", "small", "laws")])
check("C36", [run("curve", crate="crypto-harness", q=(8, 80, 40), t=(8, 800, 60))], [("curve", "small", "laws")])
