//! The parking_lot names used by the code under test, scheduled by shuttle.
use std::ops::{Deref, DerefMut};

#[derive(Debug, Default)]
pub struct Mutex<T>(shuttle::sync::Mutex<T>);
#[derive(Debug)]
pub struct MutexGuard<'a, T>(shuttle::sync::MutexGuard<'a, T>);

impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Self(shuttle::sync::Mutex::new(t))
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        MutexGuard(self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.0.try_lock().ok().map(MutexGuard)
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

#[derive(Debug, Default)]
pub struct RwLock<T>(shuttle::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        Self(shuttle::sync::RwLock::new(t))
    }
    pub fn read(&self) -> shuttle::sync::RwLockReadGuard<'_, T> {
        self.0.read().unwrap_or_else(|e| e.into_inner())
    }
    pub fn write(&self) -> shuttle::sync::RwLockWriteGuard<'_, T> {
        self.0.write().unwrap_or_else(|e| e.into_inner())
    }
}
