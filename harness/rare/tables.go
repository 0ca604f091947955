// Code generated by rare/gen; DO NOT EDIT.

package rare

// Public are seeds of keys whose public key is extreme.
var Public = []uint32{
	9030, 23798, 29132, 33494, 44178, 74884, 98343, 132522, 144694, 158727,
	200487, 235868, 248095, 310514, 329380, 356691, 359688, 364173, 374871, 378140,
	378377, 391805,
}

// Signed are messages (four bytes) whose signature by SeedKey(7), or its nonce or challenge, is extreme.
var Signed = []uint32{
	5189, 10920, 13759, 14559, 15912, 20355, 27233, 29341, 30321, 38191,
	39407, 40214, 43106, 43380, 45670, 48727, 49964, 53901, 59920, 60009,
	62178, 65725, 66867, 69314, 76131, 83062, 84122, 86795, 87728, 88192,
	90058, 90680, 90729, 92188, 94039, 100089, 101819, 102928, 104924, 106019,
	106163, 106362, 106588, 107778, 109239, 116141, 116884, 116940, 130849, 131189,
	132585, 133171, 149658, 151292, 154679, 157466, 157555, 166063, 167015, 170051,
	174332, 174520, 175450, 185071, 187925, 190866, 198201,
}

// Soft are soft indices at which a child of Parent has an extreme part.
var Soft = []uint32{
	4580, 11784, 16357, 19397, 20560, 26170, 27944, 35048, 35302, 36591,
	40822, 43365, 46867, 46906, 49371, 56282, 56691, 57420, 66291, 69356,
	70019, 70968, 72119, 73149, 74223, 75632, 76788, 79765, 85209, 87014,
	88691, 90626, 92724, 93800, 95441, 96215, 100162, 101668, 108393, 109761,
	119171,
}

// Hard are hardened indices at which a child of Parent has an extreme part.
var Hard = []uint32{
	2147486737, 2147490530, 2147497199, 2147510048, 2147516365, 2147517021, 2147518730, 2147521712, 2147522006, 2147525273,
	2147525559, 2147529453, 2147529838, 2147530072, 2147536671, 2147540943, 2147541661, 2147541973, 2147542292, 2147544185,
	2147545390, 2147547510, 2147548330, 2147551668, 2147552445, 2147562136, 2147563261, 2147563967, 2147565493, 2147576223,
	2147586432, 2147588776, 2147591558, 2147593645, 2147594460, 2147594647, 2147597066, 2147603315,
}

// Hashed are blocks with an extreme digest.
var Hashed = []uint32{
	131, 8383, 13142, 16405, 25197, 26533, 31303, 33818, 39400, 41181,
	42244, 47387, 57112, 63993, 70069, 83671, 89295, 92833, 95881, 135591,
	146021, 146555, 150489, 159215, 159377, 164488, 174753, 184522,
}

// Coded are addresses with an extreme checksum.
var Coded = []uint32{
	3087, 10117, 11811, 13914, 19705, 30380, 49792, 52006, 91399, 93345,
	98306, 100772, 105952, 108469, 122134, 124739, 139125, 140576, 148704, 150854,
	155523, 157142, 172517, 174147, 198242,
}

// Roots are secrets whose root key has an extreme part.
var Roots = []uint32{
	610, 8668, 10593, 10768, 22810, 24701, 29600, 39340, 40385, 46064,
	47440, 51507, 52716, 59156,
}

// SeedRoots are seeds whose root key has an extreme part.
var SeedRoots = []uint32{
	1809, 7369, 8128, 13777, 16316, 20436, 26055, 26289, 32436, 32463,
	34038, 38842, 39697, 40548, 48990, 52420, 53153, 57904, 58013, 62412,
	68366, 70781, 78678, 81715, 82981, 84431, 89311, 90957, 93139, 95185,
	95863, 96090, 102157, 106922, 109972, 112447, 114938, 116143, 118481, 119194,
	119221, 128115, 133681, 134357, 141129, 142056, 144236, 149591, 153316, 156225,
	158432, 165653, 166182, 169930, 169961, 170398, 171129, 171450, 171914, 172919,
	175840, 181383, 184496, 185682, 186996, 188045, 188529, 191770, 194464, 195554,
	198594,
}
