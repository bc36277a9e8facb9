//! Small multi-contract test bench used by the demonstration in main.rs.
#![allow(dead_code)]
use anyhow::anyhow;
use cosmwasm_std::{
    to_binary, Addr, BankMsg, Binary, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo,
    Reply, Response, WasmMsg,
};
use cw_multi_test::{App, AppResponse, Contract, Executor};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type ExecFn = Box<dyn FnMut(&Env, &MessageInfo, &Value) -> Result<StubReply, String>>;
pub type QueryFn = Box<dyn FnMut(&Value) -> Result<Value, String>>;

#[derive(Default)]
pub struct StubReply {
    pub data: Option<Binary>,
    pub msgs: Vec<CosmosMsg>,
    pub record: bool,
}
impl StubReply {
    pub fn rec() -> Self {
        StubReply {
            record: true,
            ..Default::default()
        }
    }
}

#[derive(Default)]
pub struct StubCfg {
    pub exec: Option<ExecFn>,
    pub query: Option<QueryFn>,
    /// everything asked of the stub, including in transactions that were later rolled back
    pub queries: Vec<Value>,
}

#[derive(Clone, Default)]
pub struct Stub {
    pub cfg: Rc<RefCell<StubCfg>>,
}
impl Stub {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn on_exec(
        &self,
        f: impl FnMut(&Env, &MessageInfo, &Value) -> Result<StubReply, String> + 'static,
    ) {
        self.cfg.borrow_mut().exec = Some(Box::new(f));
    }
    pub fn on_query(&self, f: impl FnMut(&Value) -> Result<Value, String> + 'static) {
        self.cfg.borrow_mut().query = Some(Box::new(f));
    }
}

pub const REC: &str = "rec";

impl Contract<Empty> for Stub {
    fn execute(
        &self,
        _deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: Vec<u8>,
    ) -> anyhow::Result<Response<Empty>> {
        let v: Value = serde_json::from_slice(&msg)?;
        let mut cfg = self.cfg.borrow_mut();
        let reply = match cfg.exec.as_mut() {
            Some(f) => f(&env, &info, &v).map_err(|e| anyhow!(e))?,
            None => StubReply::rec(),
        };
        let mut r = Response::new().add_messages(reply.msgs);
        if reply.record {
            r = r.add_event(
                Event::new(REC)
                    .add_attribute("sender", info.sender.to_string())
                    .add_attribute(
                        "funds",
                        format!(
                            "[{}]",
                            info.funds
                                .iter()
                                .map(|c| c.to_string())
                                .collect::<Vec<_>>()
                                .join(",")
                        ),
                    )
                    .add_attribute("msg", String::from_utf8(msg)?),
            );
        }
        if let Some(d) = reply.data {
            r = r.set_data(d);
        }
        Ok(r)
    }
    fn instantiate(
        &self,
        _deps: DepsMut,
        _env: Env,
        _info: MessageInfo,
        _msg: Vec<u8>,
    ) -> anyhow::Result<Response<Empty>> {
        Ok(Response::new())
    }
    fn query(&self, _deps: Deps, _env: Env, msg: Vec<u8>) -> anyhow::Result<Binary> {
        let v: Value = serde_json::from_slice(&msg)?;
        let mut cfg = self.cfg.borrow_mut();
        cfg.queries.push(v.clone());
        match cfg.query.as_mut() {
            Some(f) => {
                let out = f(&v).map_err(|e| anyhow!(e))?;
                Ok(to_binary(&out)?)
            }
            None => Err(anyhow!("stub does not answer queries")),
        }
    }
    fn sudo(&self, _deps: DepsMut, _env: Env, _msg: Vec<u8>) -> anyhow::Result<Response<Empty>> {
        Err(anyhow!("no sudo"))
    }
    fn reply(&self, _deps: DepsMut, _env: Env, _msg: Reply) -> anyhow::Result<Response<Empty>> {
        Ok(Response::new())
    }
    fn migrate(&self, _deps: DepsMut, _env: Env, _msg: Vec<u8>) -> anyhow::Result<Response<Empty>> {
        Err(anyhow!("no migrate"))
    }
}

pub type Out = Result<AppResponse, String>;

pub struct W {
    pub app: App,
}

/// one delivery observed by a stub
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub to: String,
    pub sender: String,
    pub funds: String,
    pub msg: Value,
}

impl Default for W {
    fn default() -> Self {
        Self::new()
    }
}

impl W {
    pub fn new() -> W {
        W { app: App::default() }
    }
    pub fn with_funds(funds: Vec<(Addr, Vec<Coin>)>) -> W {
        W {
            app: App::new(move |router, _, storage| {
                for (a, c) in funds {
                    router.bank.init_balance(storage, &a, c).expect("init balance");
                }
            }),
        }
    }
    pub fn stub(&mut self) -> (Addr, Stub) {
        let s = Stub::new();
        let a = self.install(Box::new(s.clone()), &Empty {}).expect("stub");
        (a, s)
    }
    pub fn install<M: Serialize>(
        &mut self,
        code: Box<dyn Contract<Empty>>,
        msg: &M,
    ) -> Result<Addr, String> {
        let id = self.app.store_code(code);
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| {
            app.instantiate_contract(id, Addr::unchecked("deployer"), msg, &[], "c", None)
        }));
        match r {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("PANIC: {}", panic_text(p))),
        }
    }
    pub fn exec<M: Serialize>(&mut self, sender: &Addr, to: &Addr, msg: &M, funds: &[Coin]) -> Out {
        let bin = Binary(serde_json::to_vec(msg).expect("serialise"));
        self.exec_bin(sender, to, bin, funds)
    }
    pub fn exec_bin(&mut self, sender: &Addr, to: &Addr, msg: Binary, funds: &[Coin]) -> Out {
        self.cosmos(
            sender,
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: to.to_string(),
                msg,
                funds: funds.to_vec(),
            }),
        )
    }
    pub fn cosmos(&mut self, sender: &Addr, msg: CosmosMsg) -> Out {
        let app = &mut self.app;
        let s = sender.clone();
        match catch_unwind(AssertUnwindSafe(|| app.execute(s, msg))) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("PANIC: {}", panic_text(p))),
        }
    }
    pub fn send(&mut self, from: &Addr, to: &Addr, coins: Vec<Coin>) -> Out {
        self.cosmos(
            from,
            CosmosMsg::Bank(BankMsg::Send {
                to_address: to.to_string(),
                amount: coins,
            }),
        )
    }
    pub fn query<T: DeserializeOwned, M: Serialize>(&self, to: &Addr, msg: &M) -> Result<T, String> {
        let app = &self.app;
        match catch_unwind(AssertUnwindSafe(|| {
            app.wrap().query_wasm_smart::<T>(to.to_string(), msg)
        })) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("PANIC: {}", panic_text(p))),
        }
    }
    pub fn balance(&self, a: &Addr, denom: &str) -> u128 {
        self.app
            .wrap()
            .query_balance(a.to_string(), denom)
            .map(|c| c.amount.u128())
            .unwrap_or(0)
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn advance(&mut self, blocks: u64, secs: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(secs);
        });
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn attr<'a>(e: &'a Event, k: &str) -> Option<&'a str> {
    e.attributes
        .iter()
        .find(|a| a.key == k)
        .map(|a| a.value.as_str())
}

/// custom events of type `wasm-<ty>` emitted by `from`
pub fn evs<'a>(r: &'a AppResponse, ty: &str, from: &Addr) -> Vec<&'a Event> {
    let full = format!("wasm-{ty}");
    r.events
        .iter()
        .filter(|e| e.ty == full && attr(e, "_contract_addr") == Some(from.as_str()))
        .collect()
}

/// attributes of an event without the emitting address, in order
pub fn attrs(e: &Event) -> Vec<(String, String)> {
    e.attributes
        .iter()
        .filter(|a| a.key != "_contract_addr")
        .map(|a| (a.key.clone(), a.value.clone()))
        .collect()
}

pub fn recs(r: &AppResponse) -> Vec<Rec> {
    let full = format!("wasm-{REC}");
    r.events
        .iter()
        .filter(|e| e.ty == full)
        .map(|e| Rec {
            to: attr(e, "_contract_addr").unwrap_or("").to_string(),
            sender: attr(e, "sender").unwrap_or("").to_string(),
            funds: attr(e, "funds").unwrap_or("").to_string(),
            msg: serde_json::from_str(attr(e, "msg").unwrap_or("null")).unwrap_or(Value::Null),
        })
        .collect()
}

/// account balance movements out of `from` by bank messages in this response: (recipient, coins)
pub fn transfers(r: &AppResponse) -> Vec<(String, String, String)> {
    r.events
        .iter()
        .filter(|e| e.ty == "transfer")
        .map(|e| {
            (
                attr(e, "sender").unwrap_or("").to_string(),
                attr(e, "recipient").unwrap_or("").to_string(),
                attr(e, "amount").unwrap_or("").to_string(),
            )
        })
        .collect()
}

pub fn addr(s: &str) -> Addr {
    Addr::unchecked(s)
}

pub fn short(o: &Out) -> String {
    match o {
        Ok(_) => "ok".into(),
        Err(e) => {
            let t: String = e.chars().take(160).collect();
            format!("err: {t}")
        }
    }
}

/// data of an execute response (strips the MsgExecuteContractResponse envelope)
pub fn data_of(r: &AppResponse) -> Option<Vec<u8>> {
    let d = r.data.as_ref()?.0.clone();
    if d.is_empty() {
        return None;
    }
    if d[0] != 0x0a {
        return Some(d);
    }
    let mut i = 1;
    let mut len: usize = 0;
    let mut shift = 0;
    while i < d.len() {
        let b = d[i];
        i += 1;
        len |= ((b & 0x7f) as usize) << shift;
        shift += 7;
        if b & 0x80 == 0 {
            break;
        }
    }
    if d.len() == i + len {
        Some(d[i..].to_vec())
    } else {
        Some(d)
    }
}
