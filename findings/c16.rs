use rc_slice::*; use std::thread;
fn main(){
  let which=std::env::args().nth(1).unwrap_or("a".into());
  if which=="a" {
    let mut a: ArcSlice<usize>=vec![1usize,2,3].into();
    let b=a.clone();
    let h=thread::spawn(move||{ let s=b[0]; drop(b); s});
    loop { if let Some(m)=ArcSlice::get_mut(&mut a){ m[0]=7; break } thread::yield_now(); }
    println!("{}",h.join().unwrap());
  } else {
    let mut a: ArcSlice<usize>=vec![1usize,2,3].into();
    let b=a.clone();
    let h=thread::spawn(move||{ let w=ArcSlice::downgrade(&b); drop(b); w});
    for _ in 0..1000 { if let Some(m)=ArcSlice::get_mut(&mut a){ m[0]=7;
        // exclusive: nobody may be able to upgrade while m is alive
        let w=h.join().unwrap(); assert!(w.upgrade().is_none(),"upgraded while mutably borrowed"); m[1]=8; println!("granted"); return } }
  }
}
