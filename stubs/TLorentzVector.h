#pragma once
class TLorentzVector;
