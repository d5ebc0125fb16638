//! stands in for redis-module 1.0: the types the commands use, with a handler instead of a server
use std::fmt;

#[derive(Debug, PartialEq, Clone)]
pub enum RedisValue {
    SimpleStringStatic(&'static str),
    SimpleString(String),
    BulkString(String),
    Integer(i64),
    Float(f64),
    Array(Vec<RedisValue>),
    Null,
    NoReply,
}
#[derive(Debug)]
pub enum RedisError {
    WrongArity,
    Str(&'static str),
    String(String),
    WrongType,
}
impl<T: std::error::Error> From<T> for RedisError {
    fn from(e: T) -> Self {
        RedisError::String(e.to_string())
    }
}
pub type RedisResult = Result<RedisValue, RedisError>;

impl From<()> for RedisValue {
    fn from(_: ()) -> Self {
        RedisValue::Null
    }
}
impl From<i64> for RedisValue {
    fn from(i: i64) -> Self {
        RedisValue::Integer(i)
    }
}
impl From<String> for RedisValue {
    fn from(s: String) -> Self {
        RedisValue::BulkString(s)
    }
}
impl From<&str> for RedisValue {
    fn from(s: &str) -> Self {
        RedisValue::BulkString(s.to_string())
    }
}
impl<T: Into<RedisValue>> From<Vec<T>> for RedisValue {
    fn from(v: Vec<T>) -> Self {
        RedisValue::Array(v.into_iter().map(Into::into).collect())
    }
}

#[derive(Debug, Clone, Copy)]
pub struct NotifyEvent;
#[derive(Debug, Clone, Copy)]
pub struct RawContext;

#[derive(Debug, Clone)]
pub struct RedisString(String);
impl RedisString {
    pub fn create(_ctx: RawContext, s: &str) -> RedisString {
        RedisString(s.to_string())
    }
    pub fn try_as_str(&self) -> Result<&str, RedisError> {
        Ok(&self.0)
    }
}
impl fmt::Display for RedisString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

pub struct Context {
    pub ctx: RawContext,
    handler: Box<dyn Fn(&Context, &str, &[&str]) -> RedisResult>,
}
impl Context {
    pub fn with(handler: Box<dyn Fn(&Context, &str, &[&str]) -> RedisResult>) -> Context {
        Context { ctx: RawContext, handler }
    }
    pub fn call(&self, command: &str, args: &[&str]) -> RedisResult {
        (self.handler)(self, command, args)
    }
    pub fn log_warning(&self, _: &str) {}
    pub fn log_verbose(&self, _: &str) {}
    pub fn log_debug(&self, _: &str) {}
    pub fn log_notice(&self, _: &str) {}
}
