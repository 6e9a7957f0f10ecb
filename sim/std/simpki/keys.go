// Test keys of the simulated certificate hierarchy.

package simpki

var rsaKeyHex = map[string][2]string{
	"Root":  {"b5cf52235783b3d85a1727a1b3109f4bdc708925b1f7debe154fc3741fed72948efc7a9ddbc9bce29b47f08e9381f6708f543979499516b44709a6f93c9392c8e00cb49fffae0424b0782443d52ce4995f322c744d308070f28f3bb82d58fcdb7dde2ceec435ffb316acc562acfa8afbaf4b1e58deac82b78a2fda0cce4af879", "7663cea4dcf41244ac45afb50819a6e18b666ca8733f697876003ed27b87efb8f5734b9547ee1265ada026f170f48c39b7dbaca1625d072fd5a25f6ca519a3d6b95d5df163ea354e660e90d24601053e3fdc67d06e78045e5316a8db989177c4c8271601bf44189fe8df5aedd96a9f7c5e723df98e55b6553da8160171d18141"},
	"Rogue": {"eadb33875ec042b3aac3230579a029d96a37601f36d424fe138fa13d016111710707b12b2c8d0c97ea664ea8aeca9ada2804d439614421a33399ffbbda037fd5195a19a4693499a8df4198c0c73ada806fc5ec7771f726a5b252958df698dc7824487785df5e5ace6506767a33f762d8d95d505b2eea4c7df5f315fbcaf861a3", "62116234f6a5c5b48c6bab660fe1875817f84395052a14c05b9eb02f6f31ff3c7939070c063067bfcfcb24b15f3b8ee9e5a80e8e5f4539de921f8e1ffceb5526f404879cde1d6e9f0f0364327a3d9fb63cf3f99a4ce088ced16b04eb2c68eb9abd5f89b45222541fc118a26e2e70194253cf43274e220c2ea676867905213341"},
	"CaA":   {"acd4d0d95c037850b199d669f773de3f374aa9add9aae45a8e37758ccfdca28dbdfebc2a9a73ec8d5440b3d2cc820a7d68192621b78eabee0464b296a01c666bd4273a6c1b3712bbead9b0e0fe4445cacdad409c1f1ef1fbdf79d8752e9f147f246a51b0b5eaffa1b764f6122da552ba8645a7e720a59da95e35b1978b2dd0c9", "5bb5b1fd24ee5271bf4c3a92905453a287dc7e9d59db6cc100a63d22334a88975e3245f6f56e7e1fa08d94de4ed6d26a294aef09053617d57d4f51d4cbb146472178e07fdc507902ef2ef4a5d0c437a6cc4d002cc3d59bc2448ae6ca6abda723ca80f594e29dd1e7e1a0665be471cd51445ca2346084fe484607063647e14c01"},
	"CaB":   {"c9082ddd98a1e76635a7fe52b81874dd9ab7d3d50fafaaceb99753ade4cd4825c6c5f9618f514857f6bf2eed0b240dacafe582ca68f1f8afcfba5a3dfdb45a66ecb14acb284874903b5f6cef02bad36a0e033734e42b061c33d251502214e3a71f0bc9bfbb7c76dc6dafbd0b5e754668182f3bedb860f78ef06d11d9dcdca93f", "55c1c477146674a4f85caab434ce52043abd128380468ad1d70003f559766cc198b2d97851bff5e17864042ba0a607a35401cf3273644d970a414fbfc41b8cb83b0530ffe4e12c1ff6415e4679fa221cb9b2c813e572ef9683cc494a121e4169925f0e9591f2da1736a3702892b5d7c5d8b2741eeea91bc00967dc8da1ca3e49"},
	"CaC":   {"ad3c6e50bb98aefa6e43baf20db4d86378cf3c68d2b96eb45e49b2f7f1a1e43cc3ffc7d304df6f4983823c6b84a56f16456cd257b699f7730cf0f71c0f67f8e4795de99620c4025d4dde3f8211d9880470a7fd220028b043aa3030e20d44627102f503d0afc72b19a9271da1f4e5ab7efeb640daa9e079c0272ba8c90fb43159", "9806a564d20c9eda04f409562c731d46c6194f914a041343d44ee6f1322af969de3354803a117ecf4bca7a0d7cfdd56bfd070fdc8bd1b8574def155c99a48bc53b5baaa1111c710da16d2b3df023cbfcb1b34f075ad406597fcf1fc7317d30b45e2ac5d8bdd371c385f83458f7d9c12727284bbfb164fae0b5170c2120f9b391"},
	"CaD":   {"ce531809061a90731ff0ab4b0e583cccaea5721bbc838ee98e1435752fe67a05f02812794afee7eb14ebd7fc2cd65f023456947e682c9b9c2a217295596129a8f2693a5d9f91a0a48fc56a909436e285ab0b1a539b56d24fc4d4f7c38927783eca8259a848257933ae37300197ade6cbef297945d9219daec7407236855db94b", "91e367675a0d867e20e387fb3655660844a56f9df51a00ff5c1b26018ab1292ef1b523fae7f07e045772bbf1efb254d3b63652215f7fcb380d02418720fff6f7dde07a6cca8c8b567c311bef07fb0ebafb4a3399c350cac8bb7367f53965bf72028e6f5cda6cdadff9b3b04860085c751e689ec1ea6b95b3a3ef864eb28cafc1"},
	"CaE":   {"f0fd36d3410db8225891e466d167081e543406ddbf2cbcafb5044469514a04d44be1b044ed4543c22e488668aa59ae1ed742b73c0390ebe2c1497af9ac5d128ac020573d489f3a741e965be5ca7380df6e30862a035c34a08aa678872175acef6f9cdac2a2d9b622e55cd62b56d873aba700ae4758b3101632df42778b84b3ad", "cf7d8575f0be0a3b703cf505dde8332241e7a5bdc93b909e4c62073112af8366f28ab845307181bcb032fb9f2485209927482712021406356fac7fb876c29011c1491408e557e33f739a26f7dbc7225b82ecb46857b3df0505d0327b8247e3d80eed46b2864f4cd02fe043abc644af2a30c6d7015085d3a11679d9b74e4b3395"},
	"Card1": {"bd43edc5aae9b7db3a2457f601e3fbc62ad3d10cefb9affde388be775587b7faff6fa430326c34d80bba7c5a754bb97d2e06af00732771e5b8acd917bca62b759993e4721eee114c1fcf4256d0ee916df9840e4ae6802d3decd6cdbb2fcf52bb4c4a914ee306b5624e92100a2253c65e580022777b84a07bd775ebdc34487a61", "22db6de127d71f9b6a9be2ef55edcd22f4244aae1d408f9f2cd6b46d79fd22ef4138287f0fea49d9385fc2234ed30178828f8c8f82a5d31e41e2e3a0b187d11ce7f9cf34e44204432414e1a2067e467faa47fc1d8c5ebf22ddfc7081126ad52af1f148ee6b1724c8e131afe65d989b47aa3e7a4e830a6c0ce8bc5adc87668221"},
	"Card2": {"b7776688323e849db5956022871d8abf33f4673ca753cd1d5d262ba5e1682881c81ebcede60f32653330fec9231eb8027b58638ebcb325d9ed4943ebe0704e6351fe198248977e54dc0a6ceefdfa20f524bcaabb109be687d7332699ff45dff6142172735d21c6ee0566d9f8f423c76dd0b4e2fd9c6189704e6fba18d3f6b015", "9a779302149b82786e0be836e9dfbb93a420a052f6e69d899d85a7b63003cc2708e0a85cfc17cb6c5d1f6144e3a6d7726f7b49c741a4ebb7820aef7ec7268737b57eb3cac2d41edaa45f57d36149794a5d64584a628cb1c618ae4d46169cf9797af86fb2c7aca1872533d33703e128dccf747b8f5403ff7f2607f07cfa936781"},
}
