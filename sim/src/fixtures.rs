//! Known answers for the reference model, made by fixtures (see DESIGN.md): Python hashlib for
//! BLAKE2s and the nodes of BLAKE2sp, the official vectors for keyed BLAKE2sp.
pub struct V {
    pub n: usize,
    pub hash_length: usize,
    pub key: &'static [u8],
    pub salt: &'static [u8],
    pub personal: &'static [u8],
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
    pub digest: &'static str,
}
/// Input: byte i is 7*i+3.
#[rustfmt::skip]
pub const BLAKE2S: &[V] = &[
    V { n: 0, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9" },
    V { n: 1, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "a28ac19d6bcbe2cd1d7de183485768d598e996b07889b9b11f418cb1b4a4fb0d" },
    V { n: 3, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "ca943acca89a34cf4040cf8ea24147dd94ea62a49de8ef9a88af5272339927b3" },
    V { n: 63, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "de27df0e375d83c49f1af9ca8270f9f2fe7b70bf800fc01672db0e9746021ebf" },
    V { n: 64, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "5377e4ff957bda4d4535f4879876b71a61056c4cec31e78397c66ec47a86a130" },
    V { n: 65, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "19b1b26fba093f4a670d8913e1b71cbb2916dfa701018cc6b05785c966593374" },
    V { n: 127, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "6846f99493436241d0a6f289c9a911b1d0f4860db8f2b5df5295ffd37d03a3c4" },
    V { n: 128, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "83470c75afa23d90cd7659906e4b47daa278131fbb225241dd37a40fd5355ac7" },
    V { n: 129, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "26fd8892ab0a5f12d4acbff1efd7dcd92b99e2d377f888f07e3cb81b232b11cf" },
    V { n: 200, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "46c215f5ea995be7077ae5b9e0ef1c28b2111fc213d0867ddc8f1b339362f5fc" },
    V { n: 1000, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "02a016193469710efadf8fb005ca19b509331cb847df5598cc0794bded669681" },
    V { n: 4096, hash_length: 32, key: &[], salt: &[], personal: &[], fanout: 1, max_depth: 1, max_leaf_length: 0, node_offset: 0, node_depth: 0, inner_hash_length: 0, last_node: false, digest: "4ae380b1d35cc13b961e420cc7edadf7d346edf38db172ca4591f0caa373bd67" },
    V { n: 0, hash_length: 21, key: &[], salt: &[167,13,19,211,138,25], personal: &[150,15,233,130,55], fanout: 0, max_depth: 1, max_leaf_length: 0, node_offset: 51063899821860, node_depth: 1, inner_hash_length: 3, last_node: false, digest: "50a7db21dda3a49086352da6c0d4088193c556c40e" },
    V { n: 128, hash_length: 15, key: &[31,203,25,113,23,68,148,214,73,60,157,92,52,96,190,49,32,30,105,254,218,160,238,232,185,153,127,92,124,41,153,253], salt: &[187,115,74,156,251], personal: &[31], fanout: 255, max_depth: 1, max_leaf_length: 1, node_offset: 281474976710655, node_depth: 0, inner_hash_length: 4, last_node: false, digest: "87aa2290d374b831f821eb059a25ba" },
    V { n: 0, hash_length: 21, key: &[179], salt: &[149,205,117,18,216,24,242], personal: &[122,179,171,17], fanout: 0, max_depth: 255, max_leaf_length: 3012885302, node_offset: 0, node_depth: 1, inner_hash_length: 22, last_node: true, digest: "fba2fd3fd93b6bf9d9b305ad8564b15aee3186867b" },
    V { n: 64, hash_length: 32, key: &[], salt: &[197,74,34], personal: &[102,101,235], fanout: 255, max_depth: 1, max_leaf_length: 714537754, node_offset: 1, node_depth: 1, inner_hash_length: 17, last_node: false, digest: "cc0a39f6d1128f54950b8a3f79807adde86ad8caa93ea6c939f3736408841c4a" },
    V { n: 64, hash_length: 25, key: &[], salt: &[22,46], personal: &[60,169], fanout: 1, max_depth: 1, max_leaf_length: 4294967295, node_offset: 1, node_depth: 1, inner_hash_length: 23, last_node: false, digest: "e7c9200285da47d2e22de13be8d5f4c4f5a2913efb801a76be" },
    V { n: 128, hash_length: 9, key: &[27,233,200,203,204,201,53,246,205,31,97,34,106,225,83,56,174,26,52,0,77,51,186,13,36,106,192,76,129,177,186,242], salt: &[30], personal: &[255,251,120,123,124,80,22], fanout: 1, max_depth: 1, max_leaf_length: 4294967295, node_offset: 90884480344566, node_depth: 0, inner_hash_length: 13, last_node: false, digest: "bf9fbb2668a2294bc7" },
    V { n: 65, hash_length: 24, key: &[], salt: &[235,7,195,136,77,251,165,222], personal: &[179], fanout: 2, max_depth: 255, max_leaf_length: 1, node_offset: 1, node_depth: 1, inner_hash_length: 14, last_node: true, digest: "da5273d7f7018e70bb44cf3360320b4dca6419ed271643fc" },
    V { n: 1, hash_length: 23, key: &[14,14,143,241,132,99,176,228,178,186,41,112,52,116,240,100,172,104,247,0,245,176,43,61,198,102,244,91,222,170,44,202], salt: &[103,191,243,22,186,41,44], personal: &[8,39], fanout: 255, max_depth: 255, max_leaf_length: 4294967295, node_offset: 0, node_depth: 0, inner_hash_length: 6, last_node: false, digest: "b6fac9305e37727f5f60d42db86c876881b0fdee5873cd" },
    V { n: 128, hash_length: 28, key: &[], salt: &[8,65,55], personal: &[129,62,196,151], fanout: 2, max_depth: 2, max_leaf_length: 1, node_offset: 281474976710655, node_depth: 255, inner_hash_length: 26, last_node: false, digest: "283109e9759125de554038d00a1b5c3c09d83718f88ea04892bbbe79" },
    V { n: 1, hash_length: 9, key: &[77,9,225,93,2,76,88,72,242,61,31,166,247,54,29,127,97,141,21,50,231,14,32,226,166,102,141,231,244,126,132], salt: &[229,242,52,216,115,36,107,32], personal: &[114,81,19,172,62,110], fanout: 0, max_depth: 1, max_leaf_length: 0, node_offset: 1, node_depth: 1, inner_hash_length: 8, last_node: false, digest: "9a84a8749d99a183e8" },
    V { n: 777, hash_length: 7, key: &[249,83,114,82,220], salt: &[104,87,108,51,92,82,24,185], personal: &[5,87,142,118,113], fanout: 0, max_depth: 2, max_leaf_length: 0, node_offset: 0, node_depth: 1, inner_hash_length: 17, last_node: true, digest: "ebe965e0a1a5f5" },
    V { n: 0, hash_length: 12, key: &[66], salt: &[218,234,174,210,243,67], personal: &[39,138,236,132,147,127], fanout: 2, max_depth: 1, max_leaf_length: 1, node_offset: 0, node_depth: 255, inner_hash_length: 5, last_node: false, digest: "06f0a4d7b2c5ed10cd7888c2" },
    V { n: 64, hash_length: 15, key: &[], salt: &[221,32,117,3], personal: &[255,142,107,238,235], fanout: 2, max_depth: 255, max_leaf_length: 1, node_offset: 1, node_depth: 1, inner_hash_length: 3, last_node: true, digest: "c183fc67effe873817ce7cf634f113" },
    V { n: 64, hash_length: 20, key: &[105,148,228,91,138,177,9,128,18,7,9,97,243,125,228,54,221,253,201,157,110,117,175,101,71,207,177,27,66,7,36], salt: &[111,42,15,22], personal: &[223,130,172,249,73,154], fanout: 1, max_depth: 255, max_leaf_length: 1258676654, node_offset: 4294967296, node_depth: 1, inner_hash_length: 0, last_node: true, digest: "5d0ac4ad677be20129c77cf584052359c8d448af" },
    V { n: 0, hash_length: 21, key: &[], salt: &[], personal: &[56,92,47,1], fanout: 2, max_depth: 2, max_leaf_length: 4294967295, node_offset: 139711854374348, node_depth: 0, inner_hash_length: 5, last_node: true, digest: "470a77d7335abdc72ef402dbae01cfa55dd9f80fb1" },
    V { n: 300, hash_length: 10, key: &[21,201,11,153,155], salt: &[22,150,246], personal: &[219,193,40,169,229,184,201,226], fanout: 255, max_depth: 2, max_leaf_length: 4294967295, node_offset: 0, node_depth: 255, inner_hash_length: 32, last_node: false, digest: "1a12c1a9d596f3b77de9" },
    V { n: 0, hash_length: 9, key: &[8,117,43,15,21,68,184,53,192,231,25,9,125,250,135,1,233,35,47,33,242,129,38,135,120,105,118,235,252,195,39], salt: &[234,176,74,197,12,158,162], personal: &[20,154,38], fanout: 2, max_depth: 2, max_leaf_length: 1, node_offset: 0, node_depth: 1, inner_hash_length: 17, last_node: false, digest: "1a16f3d44998948cc2" },
    V { n: 64, hash_length: 14, key: &[250,148,146,237,238,238,60,102,159,43,242,8,148,234,39,230,137,198,107,107,38,46,72,134,184,67,143,57,186,118,254,248], salt: &[7,41,1,244,126,175], personal: &[104,78,187,37,107,89,97], fanout: 2, max_depth: 1, max_leaf_length: 0, node_offset: 1, node_depth: 255, inner_hash_length: 0, last_node: false, digest: "c30059e0e8a560d024a30fc465a1" },
    V { n: 64, hash_length: 17, key: &[33], salt: &[100,223,151,20,93,237], personal: &[194,71,219,13,72,27], fanout: 0, max_depth: 255, max_leaf_length: 1, node_offset: 281474976710655, node_depth: 255, inner_hash_length: 20, last_node: true, digest: "ae1c474c08d423644a0cea9643255769aa" },
    V { n: 64, hash_length: 28, key: &[], salt: &[234,225,241,142,141,53], personal: &[13], fanout: 255, max_depth: 2, max_leaf_length: 3734383213, node_offset: 281474976710655, node_depth: 1, inner_hash_length: 21, last_node: true, digest: "5d84e16bd5e31ffc5b9f332e6f74ec102503c6105c73cd715b7e4cca" },
    V { n: 1, hash_length: 17, key: &[122,154,247,201,61], salt: &[165,42], personal: &[54], fanout: 255, max_depth: 255, max_leaf_length: 4294967295, node_offset: 1, node_depth: 255, inner_hash_length: 12, last_node: true, digest: "d58d7a48d7090c31024b156a8c793ef32d" },
    V { n: 1, hash_length: 22, key: &[46,163,122,188,132,103,10,211,196,211,107,192,138,173,31,255,142,184,64,110,47,138,127,196,204,228,221,159,11,65,16], salt: &[182,196,230,206,122,248], personal: &[1,19,101,239,238,238,212], fanout: 255, max_depth: 2, max_leaf_length: 1, node_offset: 0, node_depth: 255, inner_hash_length: 2, last_node: true, digest: "3d245303c65eff89fe93f862418e82448b6f3766e7bd" },
    V { n: 777, hash_length: 15, key: &[19,155,65,128,223,57,50,36,153,98,198,133,114,0,5,154,235,142,161,124,243,120,126,14,210,157,28,11,99,255,215], salt: &[66], personal: &[171,109,237], fanout: 2, max_depth: 1, max_leaf_length: 4294967295, node_offset: 4294967296, node_depth: 255, inner_hash_length: 25, last_node: true, digest: "32763cc52b934afe34cc7f9f16934e" },
    V { n: 0, hash_length: 19, key: &[34,105,253,102,159,99,118,238,113,135,151,55,253,95,114,248,213,28,74,201,27,109,12,72,212,26,30,94,201,230,160,57], salt: &[239], personal: &[85,49], fanout: 1, max_depth: 255, max_leaf_length: 0, node_offset: 4294967296, node_depth: 1, inner_hash_length: 28, last_node: true, digest: "d9abecdb0f29c3bdc7ffb9d2da722e4a19d5d9" },
    V { n: 300, hash_length: 6, key: &[41], salt: &[108,245,227,32,144], personal: &[98,92,197], fanout: 2, max_depth: 2, max_leaf_length: 376927471, node_offset: 209818582937281, node_depth: 1, inner_hash_length: 12, last_node: true, digest: "26f52dac0793" },
    V { n: 300, hash_length: 31, key: &[], salt: &[64,208,161,197,104,11], personal: &[9,119,17,206,236,16], fanout: 2, max_depth: 1, max_leaf_length: 4294967295, node_offset: 4294967296, node_depth: 255, inner_hash_length: 2, last_node: true, digest: "d5e7d34e5833888f0c5bdc86dac7a7813c4126977fb1045afcdb4d581b7b23" },
    V { n: 1, hash_length: 21, key: &[152], salt: &[], personal: &[7], fanout: 1, max_depth: 1, max_leaf_length: 4109328706, node_offset: 281474976710655, node_depth: 1, inner_hash_length: 8, last_node: false, digest: "d417546d0f585c37dacd56f74e5eacce6277ff2e49" },
    V { n: 1, hash_length: 1, key: &[155,77,120,167,163,235,185,40,101,200,81,126,208,33,17,246,166,82,218,53,36,135,43,106,49,215,255,228,88,119,68,213], salt: &[159,229,173,61,192,138,217], personal: &[200], fanout: 2, max_depth: 2, max_leaf_length: 4294967295, node_offset: 1, node_depth: 1, inner_hash_length: 15, last_node: true, digest: "96" },
];
/// Input: byte i is 7*i+3.
pub const BLAKE2SP: &[(usize, &str)] = &[
    (0, "dd0e891776933f43c7d032b08a917e25741f8aa9a12c12e1cac8801500f2ca4f"),
    (1, "456da349adc8eaa1ee5fd8397d9c181c21a8e9173ad90f22613fd34e1d576d44"),
    (64, "e375bba69fb1c84c7f202f06e71090695f81786b7413da0cd0126e15a0f80181"),
    (65, "11a6af420901450dd27b0babec0c484c4f7710330040136a17e79df6c54106ae"),
    (511, "63a8cc6d628b88d471d4f81035b367f62b8a14dbf55bd9cca0d945dae8e226cf"),
    (512, "201135254f94f0cf5307da6ae28daf819258fd08df8249684ffbbded6c23e0e5"),
    (513, "4524c7cfa3a7cde180691ba1a3c0d4b9fc20ced214f27e65f5c76dbb0ff44c91"),
    (1023, "0be708860fa24f9c8459bd4c0c8d282f7a8570c0b63cf352408b9f9530370b15"),
    (1024, "c172db3b0b7e122c3e1a5071348ce3bf39dab1772d9d3c1744e722c1eb0aed84"),
    (1025, "3479ff3bda494d6fbdbd024d2ac68f71b140deb159e119e7a83b45eb59840f76"),
    (1473, "523747af20ad88068dd604baff6067b3f8095329aa8ad6714a3f2fcf0b762b4d"),
    (5000, "797108ac66f04cf7f19cb474888ebdc6d60b2e5d34097bee42b6993e96518839"),
];
/// Input: byte i is i. Key: bytes 0..=31.
pub const BLAKE2SP_KEYED: &[(usize, &str)] = &[
    (0, "715cb13895aeb678f6124160bff21465b30f4f6874193fc851b4621043f09cc6"),
    (1, "40578ffa52bf51ae1866f4284d3a157fc1bcd36ac13cbdcb0377e4d0cd0b6603"),
    (63, "e85594700e3922a1e8e41eb8b064e7ac6d949d13b5a34523e5a6beac03c8ab29"),
    (64, "1d3701a5661bd31ab20562bd07b74dd19ac8f3524b73ce7bc996b788afd2f317"),
    (65, "874e1938033d7d383597a2a65f58b554e41106f6d1d50e9ba0eb685f6b6da071"),
    (127, "44cb6311d0750b7e33f7333aa78aaca9c34ad5f79c1b1591ec33951e69c4c461"),
    (200, "4451fe6bbef39343919244c51dae1ea9a954cf2c0966ab045b15521ecf350081"),
    (255, "0c8a36597d7461c63a94732821c941856c668376606c86a52de0ee4104c615db"),
];

use crate::ctx::hex;
use crate::model::{digest, ModelSp};
use crate::params::PSpec;

pub fn self_test() -> Result<(), String> {
    for v in BLAKE2S {
        let p = PSpec {
            hash_length: v.hash_length,
            key: v.key.to_vec(),
            salt: v.salt.to_vec(),
            personal: v.personal.to_vec(),
            fanout: v.fanout,
            max_depth: v.max_depth,
            max_leaf_length: v.max_leaf_length,
            node_offset: v.node_offset,
            node_depth: v.node_depth,
            inner_hash_length: v.inner_hash_length,
            last_node: v.last_node,
        };
        let d: Vec<u8> = (0..v.n).map(|i| (i * 7 + 3) as u8).collect();
        if hex(&digest(&p, &d)) != v.digest {
            return Err(format!("model disagrees with hashlib on {:?} ({} bytes)", p, v.n));
        }
    }
    for &(n, want) in BLAKE2SP {
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
        if hex(&ModelSp::new(32, &[]).update(&d).digest()) != want {
            return Err(format!("BLAKE2sp model disagrees on {} bytes", n));
        }
    }
    let key: Vec<u8> = (0..32).collect();
    for &(n, want) in BLAKE2SP_KEYED {
        let d: Vec<u8> = (0..n).map(|i| i as u8).collect();
        if hex(&ModelSp::new(32, &key).update(&d).digest()) != want {
            return Err(format!("keyed BLAKE2sp model disagrees on {} bytes", n));
        }
    }
    Ok(())
}
