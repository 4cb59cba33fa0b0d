# one line per property: name TAB ranges (code points with the property), from Perl's own UCD copy
use strict; use warnings; use Unicode::UCD qw(prop_invlist prop_invmap);
my %bin = (alphabetic=>'Alphabetic', white_space=>'White_Space', lowercase=>'Lowercase', uppercase=>'Uppercase', cased=>'Cased',
 case_ignorable=>'Case_Ignorable', cwl=>'CWL', cwu=>'CWU', cwt=>'CWT', cwcf=>'CWCF', cwcm=>'CWCM', xid_start=>'XIDS', xid_continue=>'XIDC',
 id_start=>'IDS', id_continue=>'IDC', pattern_syntax=>'Pat_Syn', pattern_white_space=>'Pat_WS', bidi_control=>'Bidi_C', bidi_mirrored=>'Bidi_M',
 emoji=>'Emoji', emoji_component=>'EComp', emoji_modifier=>'EMod', emoji_modifier_base=>'EBase', emoji_presentation=>'EPres',
 is_noncharacter=>'NChar', is_private_use=>'gc=Co', control=>'gc=Cc', is_combining_mark=>'gc=M', is_syllable=>'Block=Hangul_Syllables');
for my $n (sort keys %bin) { my @l = prop_invlist($bin{$n}); print "$n\tB\t", join(',', @l), "\n"; }
for my $p (['category','General_Category'],['bidi_class','Bidi_Class'],['gcb','GCB'],['wb','WB'],['sb','SB'],['ccc','Canonical_Combining_Class'],['age','Age'],['block','Block'],['decomposition_type','Decomposition_Type'],['numeric_type','Numeric_Type']) {
  my ($l,$m,$f,$d) = prop_invmap($p->[1]);
  print "$p->[0]\tM\t", join(',', @$l), "\t", join(',', map { ref $_ ? 'x' : $_ } @$m), "\n";
}
