#pragma once
#include <string>
int sasl_sim_live(); void sasl_sim_reset(); std::string sasl_sim_pass(int i), sasl_sim_user(int i), sasl_sim_proof(const std::string&nonce,const std::string&pass);
