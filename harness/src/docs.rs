//! Sample documents and their elements.
#![allow(dead_code)]
use crate::sym::*;

/// A document with every element the parser knows.
pub const DOC: &str = r##"<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="S.xsd"><vendor>V</vendor><vendorID>VI</vendorID><name>D</name><series>S</series><version>1</version><description>d</description><licenseText>l</licenseText><cpu><name>CM4</name><revision>r0</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>1</fpuPresent><fpuDP>0</fpuDP><dspPresent>1</dspPresent><icachePresent>1</icachePresent><dcachePresent>1</dcachePresent><itcmPresent>1</itcmPresent><dtcmPresent>1</dtcmPresent><vtorPresent>1</vtorPresent><nvicPrioBits>4</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig><deviceNumInterrupts>9</deviceNumInterrupts><sauNumRegions>8</sauNumRegions></cpu><headerSystemFilename>h</headerSystemFilename><headerDefinitionsPrefix>p</headerDefinitionsPrefix><addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><access>read-write</access><protection>s</protection><resetValue>0</resetValue><resetMask>0xff</resetMask><peripherals><peripheral><name>P</name><displayName>dn</displayName><version>1</version><description>d</description><alternatePeripheral>AP</alternatePeripheral><groupName>G</groupName><prependToName>pp</prependToName><appendToName>ap</appendToName><headerStructName>hs</headerStructName><baseAddress>0x1000</baseAddress><size>16</size><access>read-only</access><protection>n</protection><resetValue>1</resetValue><resetMask>3</resetMask><addressBlock><offset>0</offset><size>0x100</size><usage>registers</usage><protection>p</protection></addressBlock><interrupt><name>I</name><description>d</description><value>3</value></interrupt><registers><register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>0-1</dimIndex><dimName>dn</dimName><dimArrayIndex><headerEnumName>he</headerEnumName><enumeratedValue><name>e</name><value>1</value></enumeratedValue></dimArrayIndex><name>R%s</name><displayName>dn</displayName><description>d</description><alternateGroup>ag</alternateGroup><alternateRegister>ar</alternateRegister><addressOffset>0</addressOffset><size>32</size><access>writeOnce</access><protection>s</protection><resetValue>5</resetValue><resetMask>7</resetMask><dataType>uint32_t</dataType><modifiedWriteValues>clear</modifiedWriteValues><writeConstraint><range><minimum>1</minimum><maximum>9</maximum></range></writeConstraint><readAction>clear</readAction><fields><field><name>F</name><description>d</description><bitRange>[3:0]</bitRange><access>read-write</access><modifiedWriteValues>oneToSet</modifiedWriteValues><writeConstraint><writeAsRead>1</writeAsRead></writeConstraint><readAction>set</readAction><enumeratedValues><name>E</name><usage>read</usage><enumeratedValue><name>a</name><description>d</description><value>2</value></enumeratedValue><enumeratedValue><name>b</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field><field><name>G</name><lsb>4</lsb><msb>5</msb><writeConstraint><useEnumeratedValues>1</useEnumeratedValues></writeConstraint></field><field derivedFrom="G"><name>H%s</name><dim>2</dim><dimIncrement>3</dimIncrement><dimIndex>A,B</dimIndex><bitOffset>8</bitOffset><bitWidth>2</bitWidth><enumeratedValues derivedFrom="E"><usage>write</usage></enumeratedValues></field></fields></register><register derivedFrom="R%s"><name>T</name><addressOffset>16</addressOffset></register><cluster><name>C</name><description>d</description><alternateCluster>ac</alternateCluster><headerStructName>hc</headerStructName><addressOffset>0x20</addressOffset><size>8</size><access>write-only</access><protection>p</protection><resetValue>0</resetValue><resetMask>1</resetMask><register><name>X</name><addressOffset>0</addressOffset></register><cluster derivedFrom="P.K"><name>J</name><addressOffset>4</addressOffset></cluster></cluster><cluster><name>K</name><addressOffset>0x40</addressOffset><register><name>Y</name><addressOffset>0</addressOffset></register></cluster></registers></peripheral><peripheral derivedFrom="P"><name>Q%s</name><dim>2</dim><dimIncrement>64</dimIncrement><baseAddress>0x2000</baseAddress></peripheral></peripherals></device>"##;
/// The same in parts: header, peripherals, registers, fields, clusters.
pub const PARTS: &[&str] = &[
    r##"<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="S.xsd"><vendor>V</vendor><vendorID>VI</vendorID><name>D</name><series>S</series><version>1</version><description>d</description><licenseText>l</licenseText><cpu><name>CM4</name><revision>r0</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>1</fpuPresent><fpuDP>0</fpuDP><dspPresent>1</dspPresent><icachePresent>1</icachePresent><dcachePresent>1</dcachePresent><itcmPresent>1</itcmPresent><dtcmPresent>1</dtcmPresent><vtorPresent>1</vtorPresent><nvicPrioBits>4</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig><deviceNumInterrupts>9</deviceNumInterrupts><sauNumRegions>8</sauNumRegions></cpu><headerSystemFilename>h</headerSystemFilename><headerDefinitionsPrefix>p</headerDefinitionsPrefix><addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><access>read-write</access><protection>s</protection><resetValue>0</resetValue><resetMask>0xff</resetMask><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>"##,
    r##"<device><name>D</name><peripherals><peripheral><name>P</name><displayName>dn</displayName><version>1</version><description>d</description><alternatePeripheral>AP</alternatePeripheral><groupName>G</groupName><prependToName>pp</prependToName><appendToName>ap</appendToName><headerStructName>hs</headerStructName><baseAddress>0x1000</baseAddress><size>16</size><access>read-only</access><protection>n</protection><resetValue>1</resetValue><resetMask>3</resetMask><addressBlock><offset>0</offset><size>0x100</size><usage>registers</usage><protection>p</protection></addressBlock><interrupt><name>I</name><description>d</description><value>3</value></interrupt><registers><register><name>R</name><addressOffset>0</addressOffset></register></registers></peripheral><peripheral derivedFrom="P"><name>Q%s</name><dim>2</dim><dimIncrement>64</dimIncrement><baseAddress>0x2000</baseAddress></peripheral></peripherals></device>"##,
    r##"<device><name>D</name><resetValue>5</resetValue><size>32</size><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers><register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>0-1</dimIndex><dimName>dn</dimName><dimArrayIndex><headerEnumName>he</headerEnumName><enumeratedValue><name>e</name><value>1</value></enumeratedValue></dimArrayIndex><name>R%s</name><displayName>dn</displayName><description>d</description><alternateGroup>ag</alternateGroup><alternateRegister>ar</alternateRegister><addressOffset>0</addressOffset><size>32</size><access>writeOnce</access><protection>s</protection><resetValue>5</resetValue><resetMask>7</resetMask><dataType>uint32_t</dataType><modifiedWriteValues>clear</modifiedWriteValues><writeConstraint><range><minimum>1</minimum><maximum>9</maximum></range></writeConstraint><readAction>clear</readAction></register><register derivedFrom="R%s"><name>T</name><addressOffset>16</addressOffset></register></registers></peripheral></peripherals></device>"##,
    r##"<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers><register><name>R%s</name><dim>2</dim><dimIncrement>4</dimIncrement><addressOffset>0</addressOffset><fields><field><name>F</name><description>d</description><bitRange>[3:0]</bitRange><access>read-write</access><modifiedWriteValues>oneToSet</modifiedWriteValues><writeConstraint><writeAsRead>1</writeAsRead></writeConstraint><readAction>set</readAction><enumeratedValues><name>E</name><usage>read</usage><enumeratedValue><name>a</name><description>d</description><value>2</value></enumeratedValue><enumeratedValue><name>b</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field><field><name>G</name><lsb>4</lsb><msb>5</msb><writeConstraint><useEnumeratedValues>1</useEnumeratedValues></writeConstraint></field><field derivedFrom="G"><name>H%s</name><dim>2</dim><dimIncrement>3</dimIncrement><dimIndex>A,B</dimIndex><bitOffset>8</bitOffset><bitWidth>2</bitWidth><enumeratedValues derivedFrom="E"><usage>write</usage></enumeratedValues></field></fields></register></registers></peripheral></peripherals></device>"##,
    r##"<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers><cluster><name>C</name><description>d</description><alternateCluster>ac</alternateCluster><headerStructName>hc</headerStructName><addressOffset>0x20</addressOffset><size>8</size><access>write-only</access><protection>p</protection><resetValue>0</resetValue><resetMask>1</resetMask><register><name>X</name><addressOffset>0</addressOffset></register><cluster derivedFrom="P.K"><name>J</name><addressOffset>4</addressOffset></cluster></cluster><cluster><name>K</name><addressOffset>0x40</addressOffset><register><name>Y</name><addressOffset>0</addressOffset></register></cluster></registers></peripheral><peripheral derivedFrom="P"><name>Q</name><baseAddress>64</baseAddress></peripheral></peripherals></device>"##,
];

#[derive(Clone, Copy)]
pub struct El { pub d: &'static str, pub s: usize, pub cs: usize, pub ce: usize, pub e: usize, pub leaf: bool, pub up: usize }
impl El {
    pub fn put(&self, s: usize, e: usize, t: &str) -> String { let mut d = String::with_capacity(self.d.len() + t.len()); d.push_str(&self.d[..s]); d.push_str(t); d.push_str(&self.d[e..]); d }
    /// Another text inside, another element instead.
    pub fn inner(&self, t: &str) -> String { self.put(self.cs, self.ce, t) }
    pub fn outer(&self, t: &str) -> String { self.put(self.s, self.e, t) }
    pub fn own(&self) -> &'static str { &self.d[self.s..self.e] }
    pub fn content(&self) -> &'static str { &self.d[self.cs..self.ce] }
}
pub fn part() -> &'static str { PARTS[choice(PARTS.len() as u32) as usize] }
/// All elements, in document order (the document is concrete).
pub fn elems(d: &'static str) -> Vec<El> {
    let b = d.as_bytes(); let mut v: Vec<El> = vec![]; let mut st: Vec<usize> = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' { i += 1; continue }
        let mut j = i; while b[j] != b'>' { j += 1 }
        if b[i + 1] == b'/' { let k = st.pop().unwrap(); v[k].ce = i; v[k].e = j + 1; } else { let up = match st.last() { Some(&p) => { v[p].leaf = false; p } _ => 0 }; st.push(v.len()); v.push(El { up, d, s: i, cs: j + 1, ce: 0, e: 0, leaf: true }) }
        i = j + 1;
    }
    v
}
pub fn tag(x: El) -> &'static str { let t = &x.d[x.s + 1..x.cs - 1]; t.split(' ').next().unwrap() }
